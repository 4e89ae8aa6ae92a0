From 594bef9bdadcffe3a07afda2051a5e1952e2c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 01/31] fix: consider every nav element of a name when testing
 membership by position

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fa7615d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 889af347b565bac08ad4369a2e022ce92a1058f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 02/31] fix: name sectors after the first of their volumes in a
 fixed order

---
 src/adaptation/sectors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..0404f9f 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -139,7 +140,9 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
+        // sorted, as a sector is named after the first of its volumes
+        let sorted_sectors = ese.sectors.iter().sorted_by_key(|(id, _)| *id);
+        let (by_priorities_filters, volumes) = sorted_sectors.fold(
             (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
             |(mut sectors, mut volumes), (id, sector)| {
                 if let Some(polygon) = polygon_from_ese(sector) {
-- 
2.43.0


From 2d07ce60ec7c0fca6c70b372c5f476aa1ada1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 03/31] fix: start volume borders at the first point of their
 first line, not at a random one

---
 src/adaptation/sectors.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index 0404f9f..204b408 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -78,20 +78,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -100,10 +97,10 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    let line_ring = if let Some(first_line) = lines.first() {
+        let mut stack = vec![first_line.start];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = first_line.start;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
-- 
2.43.0


From f58fbf4c572e4c9cf89278a9703d7c59d09101e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 04/31] fix: keep the first visibility point of positions
 without squawk range

---
 src/ese.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..ad1229e 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -467,8 +467,9 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range =
+        parse_squawk_range(position.next_if(|pair| pair.as_rule() == Rule::squawk_range));
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From 041f6d9b12d1777f4dc6366b1d31872017569ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 05/31] fix: read four visibility points after an empty squawk
 range

---
 src/pest/ese.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..e7216f7 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -18,7 +18,7 @@ unparsed_section = { (section_header ~ NL ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
-  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
+  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
 squawk_range = { integer ~ ":" ~ integer }
-- 
2.43.0


From 1471973119a20202c792f0fb0414832a6e6ec6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 06/31] fix: end a line group's name at mixed, commented or
 final first lines

The name of a group was read past its first line when that line mixed a
coordinate and a fix, had a comment behind it or ended the file, so the line
was lost in the name or the file was rejected.
---
 src/pest/sct.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..3bf3179 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -83,8 +83,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ WHITESPACE* ~ (COMMENT | NL | EOI))
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From 0debf942760748043d573a4d3a0ed5e5e0d2266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 07/31] fix: write lines of a single point to the sector file

A line record from a point to itself was dropped on writing, leaving a group
without any line that could not be read back.
---
 src/sct.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..21d0c34 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -264,16 +264,22 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
-                format!(
-                    "{} {}{}",
-                    start.to_euroscope(),
-                    end.to_euroscope(),
-                    self.colour_name
-                        .as_ref()
-                        .map_or(String::new(), |c| format!(" {c}"))
-                )
-            })
+            // a line from a point to itself is kept as this point only
+            let point = (line.points.len() == 1)
+                .then(|| (&line.points[0], &line.points[0]))
+                .into_iter();
+            point
+                .chain(line.points.iter().tuple_windows())
+                .map(|(start, end)| {
+                    format!(
+                        "{} {}{}",
+                        start.to_euroscope(),
+                        end.to_euroscope(),
+                        self.colour_name
+                            .as_ref()
+                            .map_or(String::new(), |c| format!(" {c}"))
+                    )
+                })
         });
         lines
             .next()
-- 
2.43.0


From 2adcaa319a6f5d6841748016992c3cde23aa4794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 08/31] fix: do not write an [INFO] section that was never read

Its empty lines made the written sector file unreadable.
---
 src/sct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 21d0c34..ffe5972 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1172,7 +1172,10 @@ impl Sct {
 }
 impl Display for Sct {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        writeln!(f, "{}", self.info)?;
+        // the lines of an absent [INFO] section could not be read back
+        if self.info != SctInfo::default() {
+            writeln!(f, "{}", self.info)?;
+        }
         writeln!(
             f,
             "{}\n",
-- 
2.43.0


From 62c786ae97ea53f7b816445f4c8890633cef7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 09/31] fix: draw sector file airways along their segments

Every segment was collapsed to its start and the first of each line was never
walked, so airways were drawn as single points.
---
 src/adaptation/sct_items.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..3220d2a 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -84,7 +84,7 @@ fn build_linestring(
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
         .map(|next_line| {
-            let next_point = if next_line.start == point {
+            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
                 next_line.end
             } else {
                 next_line.start
@@ -109,7 +109,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -135,11 +135,10 @@ fn airway_to_multi_line_string(
                 MultiLineString::new(vec![]),
                 std::collections::HashSet::new(),
             ),
-            |(mut acc, mut visited), line| {
+            |(mut acc, visited), line| {
                 if visited.contains(&line_hash(*line)) {
                     (acc, visited)
                 } else {
-                    visited.insert(line_hash(*line));
                     let (linestring, new_visited) =
                         build_linestring(line.start, visited, &adjacency);
                     acc.0.push(linestring);
-- 
2.43.0


From 804afaf84bf601193f448ac90a34abd814f86b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 10/31] fix: draw sector file lines without a colour in the
 default of their kind

The SID colour was used for STARs, ARTCC boundaries and GEO lines, too.
---
 src/adaptation/sct_items.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 3220d2a..d61caa1 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -36,6 +36,7 @@ impl ColouredLines {
         locations: &Locations,
         colours: &Colours,
         settings: &Settings,
+        default_colour: Colour,
         name: &str,
         typ: &str,
     ) -> Option<Self> {
@@ -65,7 +66,7 @@ impl ColouredLines {
                 .colour_name
                 .as_ref()
                 .and_then(|colour_name| colours.get(colour_name, settings))
-                .unwrap_or(colours.map.sid),
+                .unwrap_or(default_colour),
             lines,
         })
     }
@@ -186,6 +187,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.sid,
                                 &sid.name,
                                 "SID",
                             )
@@ -206,6 +208,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.star,
                                 &star.name,
                                 "STAR",
                             )
@@ -250,6 +253,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_high_boundary,
                                 &artcc.name,
                                 "ARTCC High",
                             )
@@ -271,6 +275,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_boundary,
                                 &artcc.name,
                                 "ARTCC",
                             )
@@ -292,6 +297,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_low_boundary,
                                 &artcc.name,
                                 "ARTCC Low",
                             )
@@ -312,6 +318,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.geo,
                                 &geo.name,
                                 "Geo",
                             )
-- 
2.43.0


From 74677112c5057801d3137d6ef372b6117deb751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 11/31] fix: take the colour of high airway names from their
 own setting

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From d84f0d3ed165fe399285650ebde5ef70102d7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 12/31] fix: carry rounded seconds and minutes when writing
 coordinates

A coordinate that rounds up to a full minute or degree was written with 60
seconds or minutes, and degrees beyond 255 were cut off.
---
 src/lib.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..df5e218 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,14 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    // round to the precision of the text first, so that 60 seconds or minutes are carried
+    let milliseconds = (decimal.abs() * 3_600_000.0).round() as u64;
+    let degrees = milliseconds / 3_600_000;
+    let minutes = milliseconds / 60_000 % 60;
+    let seconds = (milliseconds % 60_000) as f64 / 1000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +106,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.y, true);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.x, false);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 4b32669deac599313f678ae86117b088b1ced11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 13/31] fix: draw VORs with the VOR symbol when no file defines
 one

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From 93df98285d9db3ef2845e75c7b8b7068c3a82409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 14/31] fix: last line style definition wins whatever its
 letter case

Styles are looked up in upper case, so definitions differing in letter case
overwrote each other in an order that changed with every run.
---
 src/topsky/map/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..2d1493b 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -457,7 +457,7 @@ pub(super) fn parse_topsky_maps(file_contents: &[u8]) -> ParseMapResult {
                                 symbols.insert(symbol.name.clone(), symbol);
                             }
                             MapDefinition::LineStyle(line_style) => {
-                                line_styles.insert(line_style.name.clone(), line_style);
+                                line_styles.insert(line_style.name.to_uppercase(), line_style);
                             }
                             MapDefinition::Override(override_sct) => {
                                 overrides.push(override_sct);
-- 
2.43.0


From 67cb9e15f0ca34a01cf02ab892200f23315a9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 15/31] fix: accept plugin settings that start with an empty
 line

---
 src/pest/topsky_settings.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/topsky_settings.pest b/src/pest/topsky_settings.pest
index 1a2c671..0b53888 100644
--- a/src/pest/topsky_settings.pest
+++ b/src/pest/topsky_settings.pest
@@ -1,4 +1,4 @@
-settings = { SOI? ~ ((SOI | NL) ~ setting)* ~ ((SOI | NL) ~ section)* ~ NL? ~ EOI}
+settings = { SOI? ~ ((NL | SOI) ~ setting)* ~ ((NL | SOI) ~ section)* ~ NL? ~ EOI}
 
 setting = _{
   (colour_setting | other_setting)
-- 
2.43.0


From 839be593402eeb0263d892c0bda1f175221011a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 16/31] fix: split the area lists of AUP and NOTAM map
 conditions

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From 17b95dde13e993ba4fb1638150b560a3dbf69d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 17/31] fix: keep the settings a map polygon was drawn with

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From a5db269a1ab9ccec906c5fe681213e3a2b5bcf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:37 +0000
Subject: [PATCH 18/31] fix: read display areas written in degrees, minutes and
 seconds

---
 src/asr.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..95bdee6 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +214,21 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coord_part(pair: Pair<Rule>) -> f64 {
+    let coord_part = pair.into_inner().next().unwrap();
+    if coord_part.as_rule() == Rule::DECIMAL {
+        return coord_part.as_str().parse().unwrap();
+    }
+
+    let mut dms = coord_part.into_inner();
+    let sign = f64::from(Sign::from(dms.next().unwrap().as_str()).sign());
+    let deg: f64 = dms.next().unwrap().as_str().parse().unwrap();
+    let min: f64 = dms.next().unwrap().as_str().parse().unwrap();
+    let sec: f64 = dms.next().unwrap().as_str().parse().unwrap();
+
+    sign * (deg + min / 60.0 + sec / 3600.0)
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -290,10 +305,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coord_part(inner.next().unwrap());
+            let lng1 = parse_coord_part(inner.next().unwrap());
+            let lat2 = parse_coord_part(inner.next().unwrap());
+            let lng2 = parse_coord_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From 86b0eda686a5b357abbd63956ecff561df8f9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 19/31] fix: choose the same plugin folder on every load when a
 profile names several

---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..320f309 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -89,6 +90,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -106,6 +108,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From 0a540070c58567428867ecd9afb3642c9cdcdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 20/31] fix: report a profile without a required setting as an
 error

---
 src/adaptation/mod.rs |  1 +
 src/prf.rs            | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 73144f5..1d24a70 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -213,6 +213,7 @@ pub struct Adaptation {
 
 impl Adaptation {
     pub fn from_prf(prf: &Prf) -> AdaptationResult {
+        prf.check_required_settings()?;
         // TODO parallelise/asyncify where able
         let sct = Sct::parse(&fs_err::read(prf.sct_path())?)?;
         let ese = Ese::parse(&fs_err::read(prf.ese_path())?)?;
diff --git a/src/prf.rs b/src/prf.rs
index 320f309..95398cc 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -21,6 +21,8 @@ pub enum PrfError {
     FileRead(#[from] io::Error),
     #[error("failed to parse .prf file: {0}")]
     Parse(#[from] pest::error::Error<Rule>),
+    #[error("missing setting {0} in .prf file")]
+    MissingSetting(&'static str),
 }
 
 #[derive(Parser)]
@@ -44,6 +46,28 @@ impl Prf {
             current_dir().unwrap().join(normalised_path)
         }
     }
+    /// Fails if one of the settings without which no adaptation can be loaded is missing.
+    pub(crate) fn check_required_settings(&self) -> Result<(), PrfError> {
+        for key in [
+            "sector",
+            "airways",
+            "SettingsfileSYMBOLOGY",
+            "airports",
+            "airportcoords",
+            "aircraft",
+            "airlines",
+        ] {
+            if !self
+                .settings
+                .0
+                .contains_key(&("Settings".to_string(), key.to_string()))
+            {
+                return Err(PrfError::MissingSetting(key));
+            }
+        }
+        Ok(())
+    }
+
     pub fn sct_path(&self) -> PathBuf {
         self.join_settings_path(&self.settings.0[&("Settings".to_string(), "sector".to_string())])
     }
-- 
2.43.0


From 53b5326f9fb7e489d6bd3db84234246b1bedd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 21/31] fix: C30 numbers too large for their field made parsers
 panic

---
 src/pest/base.pest |  8 ++++----
 src/pest/sct.pest  |  3 ++-
 src/sct.rs         | 14 ++++++++------
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..117d8d9 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -1,14 +1,14 @@
 point       =  { decimal ~ ":" ~ decimal }
 NL          = _{ ((" " | "\t")* ~ NEWLINE)+ }
 decimal     = @{ ("-" | "+")? ~ ((ASCII_DIGIT* ~ "." ~ ASCII_DIGIT+) | ASCII_DIGIT+) }
-integer     = @{ ("-" | "+")? ~ ASCII_DIGIT+ }
-pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
+integer     = @{ ("-" | "+")? ~ ASCII_DIGIT{1, 9} }
+pos_integer = @{ "+"? ~ ASCII_DIGIT{1, 9} }
 
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ASCII_DIGIT{1, 4} }
+min            = @{ ASCII_DIGIT{1, 2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 3bf3179..318a01e 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -53,7 +53,8 @@ geo_section = { "[GEO]" ~ (NL ~ (colour_definition | coloured_lines))* }
 sector_name = @{ (LETTER | ASCII_DIGIT | "\t" | ' '..'~')+ }
 sector_callsign = @{ (ASCII_ALPHANUMERIC | "_")+ }
 
-colour_definition = { "#define" ~ colour_name ~ pos_integer }
+colour_definition = { "#define" ~ colour_name ~ colour_value }
+colour_value = @{ "+"? ~ ASCII_DIGIT+ }
 colour_name = @{ (ASCII_ALPHANUMERIC | "-" | "_")+ }
 
 fix = { fix_designator ~ sct_coordinate }
diff --git a/src/sct.rs b/src/sct.rs
index ffe5972..a53356a 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -799,13 +799,15 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
-        Ok(colour_value) => Some((colour_name, colour_value)),
-        Err(e) => {
-            warn!("Could not parse colour {colour_name}: {e}");
-            None
-        }
+    let colour_value = pairs.next().unwrap().as_str();
+    let colour = colour_value
+        .parse()
+        .ok()
+        .and_then(|colour_num| Colour::from_euroscope(colour_num).ok());
+    if colour.is_none() {
+        warn!("Could not parse colour {colour_name}: {colour_value}");
     }
+    colour.map(|colour| (colour_name, colour))
 }
 
 #[inline]
-- 
2.43.0


From adb4e089f88a02db481642e8eeba0e7502204678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 22/31] fix: C30 decimal coordinates, negative levels and
 squawks beyond their range made the .ese file panic

---
 src/ese.rs        |  4 ++--
 src/pest/ese.pest | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ad1229e..276d30a 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -258,7 +258,7 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::pos_integer => Some(pair.as_str().parse().unwrap()),
         rule => unreachable!("{rule:?}"),
     }
 }
@@ -398,7 +398,7 @@ enum SectionName {
 }
 
 fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+    let mut coordinate_part = pair.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index e7216f7..257e8bb 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -19,9 +19,10 @@ unparsed_section = { (section_header ~ NL ~ line*) }
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
   ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
-  ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
+  ~ sct_coordinate? ~ (":" ~ sct_coordinate)? ~ (":" ~ sct_coordinate)? ~ (":" ~ sct_coordinate)?
 }
-squawk_range = { integer ~ ":" ~ integer }
+squawk_range = { squawk ~ ":" ~ squawk }
+squawk = @{ ASCII_DIGIT{1, 4} }
 
 cop = {
   "COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
@@ -38,8 +39,8 @@ arr_rwy = _{ wildcard | designator }
 cop_def = _{ wildcard | colon_delimited_text }
 sctx = _{ colon_delimited_text }
 sctn = _{ colon_delimited_text }
-alt_clb = _{ wildcard | integer }
-alt_des = _{ wildcard | integer }
+alt_clb = _{ wildcard | pos_integer }
+alt_des = _{ wildcard | pos_integer }
 cop_description = _{ colon_delimited_text }
 
 sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
@@ -52,7 +53,7 @@ circle_sectorline = {
 
 display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ integer ~ ":" ~ integer ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ ":" ~ pos_integer ~ NL ~ (sector_subsettings ~ NL)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -65,7 +66,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ integer ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ NL ~ (coord ~ NL)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
@@ -74,7 +75,8 @@ wildcard = { "*" }
 
 broken = @{ !("[") ~ (!NL ~ ANY)* }
 
-coord = _{ "COORD:" ~ coordinate }
+coord = _{ "COORD:" ~ sct_coordinate }
+sct_coordinate = { sct_coord_part ~ ":" ~ sct_coord_part }
 
 frequency = @{ decimal }
 
-- 
2.43.0


From fad5bd1d1ac2e8cad5714449eeea0af6d2c30896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 23/31] fix: C30 levels too large made airway.txt panic

---
 src/pest/airway.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 605d6cb..17295c8 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -16,7 +16,7 @@ no_neighbour = {
 }
 
 bool = _{ TRUE | FALSE }
-level = { ASCII_DIGIT+ }
+level = { ASCII_DIGIT{1, 9} }
 not_established = { "NESTB" | "" }
 
 designator = { (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
-- 
2.43.0


From 10d9025ed34e995ea00fbee5026516e6942abe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 24/31] fix: C30 negative symbol numbers made the symbology
 panic

---
 src/pest/symbology.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/symbology.pest b/src/pest/symbology.pest
index a3718ed..0e5db77 100644
--- a/src/pest/symbology.pest
+++ b/src/pest/symbology.pest
@@ -8,7 +8,7 @@ item = { colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ integer ~ ":"
 line_style = { '0'..'4' }
 alignment = { "12" | "13" | "14" | '0'..'2' | '6'..'8' }
 
-symbol = { "SYMBOL:" ~ integer ~ NL ~ symbolitem+ }
+symbol = { "SYMBOL:" ~ pos_integer ~ NL ~ symbolitem+ }
 symbolitem = _{ "SYMBOLITEM:" ~ symbolrule }
 
 footer = { clip_area ~ NL ~ "END" ~ NL? }
-- 
2.43.0


From a4372d0c4a0cfd219ee1dd51a661fe8b2eadfa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 25/31] fix: C30 mixed coordinates and colours beyond their
 range made TopSky maps panic

---
 src/topsky/map/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 2d1493b..14fb520 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -60,7 +60,14 @@ fn parse_coord(pair: Pair<Rule>) -> Coord {
         (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
             Coord::from_deg_min_sec(lat, lng)
         }
-        _ => panic!("Consistency!"),
+        (CoordinatePart::Decimal(y), CoordinatePart::DegMinSec(lng)) => Coord {
+            y,
+            ..Coord::from_deg_min_sec(DegMinSec::default(), lng)
+        },
+        (CoordinatePart::DegMinSec(lat), CoordinatePart::Decimal(x)) => Coord {
+            x,
+            ..Coord::from_deg_min_sec(lat, DegMinSec::default())
+        },
     }
 }
 
@@ -376,12 +383,14 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
+            let rgb: Vec<u8> = colour
+                .map(|part| part.as_str().parse())
+                .collect::<Result<_, _>>()
+                .inspect_err(|e| warn!("Could not parse colour {name}: {e}"))
+                .ok()?;
             Some(ColourDef {
                 name,
-                colour: Colour::from_rgb(r, g, b),
+                colour: Colour::from_rgb(rgb[0], rgb[1], rgb[2]),
             })
         }
         Rule::EOI => None,
-- 
2.43.0


From 84f7d4531ad93e3eb9f110c6e4ab3c5e26f930a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 26/31] fix: C30 numbers beyond their range made display files
 panic

---
 src/asr.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 95bdee6..e0329c1 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::{io, num::ParseIntError, str::FromStr};
 
 use geo::Coord;
 use pest::{iterators::Pair, Parser};
@@ -214,6 +214,13 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_integer<T: FromStr<Err = ParseIntError>>(pair: &Pair<Rule>) -> Option<T> {
+    pair.as_str()
+        .parse()
+        .inspect_err(|e| warn!("Could not parse number, {e}: {}", pair.as_str()))
+        .ok()
+}
+
 fn parse_coord_part(pair: Pair<Rule>) -> f64 {
     let coord_part = pair.into_inner().next().unwrap();
     if coord_part.as_rule() == Rule::DECIMAL {
@@ -256,7 +263,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_integer(&inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -264,7 +271,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_integer(&inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -272,7 +279,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader = parse_integer::<i8>(&inner.next().unwrap())?;
             Some(if leader > 0 {
                 #[allow(clippy::cast_sign_loss)]
                 AsrData::Leader(Leader::Miles(leader as u8))
@@ -282,9 +289,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => parse_integer(&inner.next().unwrap()).map(AsrData::HistoryDots),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
-- 
2.43.0


From c9492df3c0ce6c4251c69f6be68f69ad66f4ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 27/31] fix: C30 coordinates with digits that are not ASCII
 made place lookups panic

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fa7615d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From 852886614a248575e8d3a24ac0923fb7fad32f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 28/31] fix: keep COP keys apart when names contain the
 separator

---
 src/ese.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 276d30a..b6de166 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -342,16 +342,18 @@ impl Constraint {
         fn opt(f: Option<&str>) -> &str {
             f.unwrap_or("*")
         }
-        format!(
-            "{}#{}#{}#{}#{}#{}#{}",
+        [
             opt(self.previous_fix.as_deref()),
             opt(self.departure_runway.as_deref()),
             opt(self.subsequent_fix.as_deref()),
             opt(self.arrival_runway.as_deref()),
             opt(self.fix.as_deref()),
-            self.exit_sector,
-            self.entry_sector,
-        )
+            &self.exit_sector,
+            &self.entry_sector,
+        ]
+        // the separator may itself be part of a name
+        .map(|part| part.replace('\\', "\\\\").replace('#', "\\#"))
+        .join("#")
     }
 }
 
-- 
2.43.0


From 69cc6670504c2455ae65eea662e62d3176a55b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:46 +0000
Subject: [PATCH 29/31] fix: join airway segments at latitude or longitude zero
 of either hemisphere

---
 src/adaptation/sct_items.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index d61caa1..d71fcc5 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -12,6 +12,7 @@ use super::{
     colours::{Colour, Colours},
     locations::Locations,
     settings::Settings,
+    Quantize as _,
 };
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -21,13 +22,11 @@ pub struct ColouredLines {
 }
 
 fn line_hash(line: Line) -> String {
-    format!(
-        "x{:.6}y{:.6}x{:.6}y{:.6}",
-        line.start.x, line.start.y, line.end.x, line.end.y
-    )
+    coord_hash(line.start) + &coord_hash(line.end)
 }
 fn coord_hash(c: Coord) -> String {
-    format!("x{:.6}y{:.6}", c.x, c.y)
+    let (x, y) = c.quantize();
+    format!("x{x}y{y}")
 }
 
 impl ColouredLines {
-- 
2.43.0


From fad4b6501cfc243fb839fa52130a86b3ca31010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:23 +0000
Subject: [PATCH 30/31] fix: long airways of the sector file no longer overflow
 the stack

---
 src/adaptation/sct_items.rs | 58 +++++++++++++++----------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index d71fcc5..86eef05 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -72,30 +72,29 @@ impl ColouredLines {
 }
 
 fn build_linestring(
-    point: Coord,
-    visited: HashSet<String>,
+    start: Coord,
+    visited: &mut HashSet<String>,
     adjacency: &MultiMap<String, Line>,
-) -> (LineString, std::collections::HashSet<String>) {
-    adjacency
+) -> LineString {
+    let mut path = vec![start];
+    let mut point = start;
+    while let Some(next_line) = adjacency
         .get_vec(&coord_hash(point))
         .and_then(|connected_lines| {
             connected_lines
                 .iter()
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
-        .map(|next_line| {
-            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
-                next_line.end
-            } else {
-                next_line.start
-            };
-            let mut tmp_visited = visited.clone();
-            tmp_visited.insert(line_hash(*next_line));
-            let (mut path, new_visited) = build_linestring(next_point, tmp_visited, adjacency);
-            path.0.insert(0, point);
-            (path, new_visited)
-        })
-        .unwrap_or((LineString::new(vec![point]), visited))
+    {
+        visited.insert(line_hash(*next_line));
+        point = if coord_hash(next_line.start) == coord_hash(point) {
+            next_line.end
+        } else {
+            next_line.start
+        };
+        path.push(point);
+    }
+    LineString::new(path)
 }
 
 fn airway_to_multi_line_string(
@@ -128,26 +127,17 @@ fn airway_to_multi_line_string(
         })
         .collect();
 
+    let mut visited = HashSet::new();
     lines
         .iter()
-        .fold(
-            (
-                MultiLineString::new(vec![]),
-                std::collections::HashSet::new(),
-            ),
-            |(mut acc, visited), line| {
-                if visited.contains(&line_hash(*line)) {
-                    (acc, visited)
-                } else {
-                    let (linestring, new_visited) =
-                        build_linestring(line.start, visited, &adjacency);
-                    acc.0.push(linestring);
+        .fold(MultiLineString::new(vec![]), |mut acc, line| {
+            if !visited.contains(&line_hash(*line)) {
+                acc.0
+                    .push(build_linestring(line.start, &mut visited, &adjacency));
+            }
 
-                    (acc, new_visited)
-                }
-            },
-        )
-        .0
+            acc
+        })
 }
 
 #[derive(Clone, Debug, Default, Serialize, Deserialize)]
-- 
2.43.0


From 5d847977e9524f8fc6520c64efb7fd222c32a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:31 +0000
Subject: [PATCH 31/31] fix: keep blanks and comment signs at the start of an
 SCT label's text

---
 src/pest/sct.pest | 4 +++-
 src/sct.rs        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 318a01e..69bc930 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -73,7 +73,9 @@ ctr_airspace = { "A" | "B" | "C" | "D" | "E" | "F" | "G" }
 coloured_lines = { non_coordinate_or_double_fix_name ~ coloured_line ~ (NL ~ coloured_line)*  }
 coloured_line = { (sct_coordinate | airway_fix) ~ (sct_coordinate | airway_fix) ~ colour_name? }
 
-label = { quoted_string ~ sct_coordinate ~ colour_name }
+label = { label_name ~ sct_coordinate ~ colour_name }
+// everything between the quotes, neither blanks nor comments are skipped
+label_name = ${ quoted_string }
 
 // two identical consecutive fixes
 airway_fix = ${ PUSH(designator) ~ WHITESPACE+ ~ POP }
diff --git a/src/sct.rs b/src/sct.rs
index a53356a..d0e434c 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -646,7 +646,7 @@ fn parse_region(pair: Pair<Rule>) -> Region {
 
 fn parse_label(pair: Pair<Rule>) -> Label {
     let mut label = pair.into_inner();
-    let name = label.next().unwrap().as_str().to_string();
+    let name = label.next().unwrap().into_inner().as_str().to_string();
     let coordinate = parse_location(label.next().unwrap());
     let colour_name = label.next().unwrap().as_str().to_string();
 
-- 
2.43.0

