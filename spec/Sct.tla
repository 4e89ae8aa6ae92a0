--------------------------------- MODULE Sct --------------------------------
(* A sector file read record by record: its sections in any order, colour       *)
(* definitions anywhere between records, groups of coloured lines that become    *)
(* polylines; the file written again; and what is drawn from it.                 *)
EXTENDS Util, Builtins
CONSTANTS Depth, Mode, Focus   \* Focus: "order" | "lines" | "all" | "draw" | "air"

VARIABLES open,    \* section being read
          secs,    \* section -> its records (the sections read so far)
          cols,    \* colour name -> value
          info,    \* header, if any
          src,     \* (for the properties) per section, the line records as written
          plug,    \* colours of the plugin and the symbology, and the plugin's variant
          hist
vars == <<open, secs, cols, info, src, plug, hist>>
View == <<open, secs, cols, info, src, plug>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

CNames == {"colour_APP", "c1", "C1", "c10", "C-2", "_", "-1", "1", "Concerned", "a_colour_with_a_rather_long_name-1"}
Groups == {"SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "GEO"}
Airways == {"HIGH AIRWAY", "LOW AIRWAY"}
Sections == Groups \cup Airways \cup {"VOR", "NDB", "FIXES", "AIRPORT", "RUNWAY", "REGIONS", "LABELS"}
Recs(k) == IF Has(secs, k) THEN secs[k] ELSE <<>>

----------------------------------------------------------------------------
(* Polylines: a line record [s, e, c] joins the open polyline of the same colour if it *)
(* starts where that ends; a line of no length adds no point.                           *)
Single(s, e) == IF s = e THEN <<s>> ELSE <<s, e>>
Join(g, l) ==
  IF g # <<>> /\ Last(g).c = l.c
  THEN LET f == Last(g)
           p == Last(f.lines)
           ls == IF Last(p) = l.s THEN Append(Front(f.lines), IF l.s = l.e THEN p ELSE Append(p, l.e))
                 ELSE Append(f.lines, Single(l.s, l.e))
       IN Append(Front(g), [f EXCEPT !.lines = ls])
  ELSE Append(g, [c |-> l.c, lines |-> <<Single(l.s, l.e)>>])
JoinAll(ls) == FoldLeft(Join, <<>>, ls)
\* the segments a polyline is made of, a point alone counting as one
Segs(p) == IF Len(p) = 1 THEN <<<<p[1], p[1]>>>> ELSE [i \in 1..Len(p) - 1 |-> <<p[i], p[i+1]>>]
\* what is written for a group: one line per segment, with its colour
Written(g) == SFlat(SMap(g, LAMBDA f : SFlat(SMap(f.lines, LAMBDA p : SMap(Segs(p), LAMBDA q : [s |-> q[1], e |-> q[2], c |-> f.c])))))

----------------------------------------------------------------------------
Open(k) == /\ k \notin DOMAIN secs /\ open' = k /\ secs' = Put(secs, k, <<>>) /\ Log([op |-> "open", k |-> k])
           /\ UNCHANGED <<cols, info, src, plug>>
Header(v) == /\ info = <<>> /\ info' = <<v>> /\ open' = "INFO" /\ Log([op |-> "info", v |-> v]) /\ UNCHANGED <<secs, cols, src, plug>>
Add(r) == /\ secs' = [secs EXCEPT ![open] = Append(@, r)] /\ Log([op |-> "rec", k |-> open, r |-> r]) /\ UNCHANGED <<open, cols, info, src, plug>>
\* a colour definition: the last counts, one outside the colour space none
Valid(v) == v < 16777216
Define(n, v) == /\ cols' = (IF Valid(v) THEN Put(cols, n, v) ELSE cols) /\ Log([op |-> "col", n |-> n, v |-> v])
                /\ UNCHANGED <<open, secs, info, src, plug>>
\* a record that is not one, among fixes and NDBs
Broken(t) == /\ open \in {"FIXES", "NDB"} /\ Log([op |-> "broken", t |-> t]) /\ UNCHANGED <<open, secs, cols, info, src, plug>>
Remark == /\ hist # <<>> /\ Last(hist).op # "remark" /\ Log([op |-> "remark"]) /\ UNCHANGED <<open, secs, cols, info, src, plug>>
Group(n, l) == /\ open \in Groups /\ secs' = [secs EXCEPT ![open] = Append(@, [n |-> n, g |-> JoinAll(<<l>>)])]
               /\ src' = Put(src, open, Append(IF Has(src, open) THEN src[open] ELSE <<>>, <<l>>))
               /\ Log([op |-> "group", n |-> n, l |-> l]) /\ UNCHANGED <<open, cols, info, plug>>
\* a further line of the group, directly after one of its lines
More(l) == /\ open \in Groups /\ hist # <<>> /\ Last(hist).op \in {"group", "more"}
           /\ secs' = [secs EXCEPT ![open][Len(secs[open])].g = Join(@, l)]
           /\ src' = [src EXCEPT ![open][Len(src[open])] = Append(@, l)]
           /\ Log([op |-> "more", l |-> l]) /\ UNCHANGED <<open, cols, info, plug>>
\* what the plugin and the symbology say about colours
Variant(v) == plug.coop = <<>> /\ plug' = [plug EXCEPT !.coop = <<v>>] /\ Log([op |-> "coop", v |-> v]) /\ UNCHANGED <<open, secs, cols, info, src>>
Plugin(n, v) == plug' = [plug EXCEPT !.ts = Put(@, n, v)] /\ Log([op |-> "ts", n |-> n, v |-> v]) /\ UNCHANGED <<open, secs, cols, info, src>>
Symbology(k, v) == plug' = [plug EXCEPT !.sym = (IF Valid(v) THEN Put(@, k, v) ELSE @)] /\ Log([op |-> "sym", n |-> k, v |-> v]) /\ UNCHANGED <<open, secs, cols, info, src>>

----------------------------------------------------------------------------
(* What is drawn *)
\* the places of the fixes and navaids of this file; "p.." are positions written out
Places(n) == LET v == SelectSeq(Recs("VOR"), LAMBDA r : r.n = n)
                 d == SelectSeq(Recs("NDB"), LAMBDA r : r.n = n)
                 f == SelectSeq(Recs("FIXES"), LAMBDA r : r.n = n)
                 a == SelectSeq(Recs("AIRPORT"), LAMBDA r : r.n = n)
             IN IF v # <<>> THEN <<v[1].p>> ELSE IF d # <<>> THEN <<d[1].p>> ELSE IF f # <<>> THEN <<f[1].p>>
                ELSE IF a # <<>> THEN <<a[Len(a)].p>> ELSE <<>>
Pt(i) == "p" \o ToString(i)
PtNames == {Pt(i) : i \in 1..13}
NumOf(s) == CHOOSE i \in 1..13 : Pt(i) = s
At(l) == IF l \in PtNames THEN <<NumOf(l)>> ELSE Places(l)
Dedup(p) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Last(acc) = x THEN acc ELSE Append(acc, x), <<>>, p)
DrawLine(p) == Dedup(SFlat(SMap(p, At)))
\* colours by name: the plugin's, else the file's, else the plugin's built-in ones (Builtins.tla)
Coop == IF plug.coop = <<>> THEN TRUE ELSE plug.coop[1] # "0"
BuiltinOf(n) == IF ~Has(Builtin, n) THEN <<>> ELSE IF Coop THEN Builtin[n].coop ELSE Builtin[n].plain
PluginOf(n) == IF Has(plug.ts, n) THEN <<plug.ts[n]>> ELSE BuiltinOf(n)
ColourOf(n) == IF Has(plug.ts, n) THEN <<plug.ts[n]>> ELSE IF Has(cols, n) THEN <<cols[n]>> ELSE BuiltinOf(n)
\* what the symbology has colours for, and the default without one
MapFields == [fix_symbol |-> "Fixes:symbol", fix_name |-> "Fixes:name", airport_symbol |-> "Airports:symbol", airport_name |-> "Airports:name",
  ndb_symbol |-> "NDBs:symbol", ndb_name |-> "NDBs:name", ndb_frequency |-> "NDBs:frequency", vor_symbol |-> "VORs:symbol",
  vor_name |-> "VORs:name", vor_frequency |-> "VORs:frequency", low_airway_line |-> "Low airways:line", low_airway_name |-> "Low airways:name",
  high_airway_line |-> "High airways:line", high_airway_name |-> "High airways:name", sid |-> "Sids:line", star |-> "Stars:line",
  artcc_boundary |-> "ARTCC boundary:line", artcc_low_boundary |-> "ARTCC low boundary:line", artcc_high_boundary |-> "ARTCC high boundary:line",
  geo |-> "Geo:line", runway_centreline |-> "Runways:centerline", runway_extended_centreline |-> "Runways:extended centerline",
  runway_name |-> "Runways:name", free_text |-> "Other:freetext"]
SectorFields == [active_background |-> "Sector:active sector background", inactive_background |-> "Sector:inactive sector background"]
Item(k, d) == IF Has(plug.sym, k) THEN plug.sym[k] ELSE d
KindItem == [x \in {"SID"} |-> "Sids:line"] @@ [x \in {"STAR"} |-> "Stars:line"] @@ [x \in {"ARTCC HIGH"} |-> "ARTCC high boundary:line"]
  @@ [x \in {"ARTCC"} |-> "ARTCC boundary:line"] @@ [x \in {"ARTCC LOW"} |-> "ARTCC low boundary:line"] @@ [x \in {"GEO"} |-> "Geo:line"]
KindColour(k) == Item(KindItem[k], 0)
\* the plugin's own colours of tracks and windows
TrackFields == [assumed |-> "Assumed", advanced |-> "Concerned", concerned |-> "Redundant", unconcerned |-> "Unconcerned", vfr |-> "VFR",
  flight_leg |-> "Flight_Leg", predicted_alert |-> "Warning", current_alert |-> "Urgency", reaction |-> "Proposition_In", cleared |-> "Rwy_Locked"]
WindowFields == [armed |-> "Arm", background |-> "Background", foreground |-> "Foreground", window_title_background_selected |-> "Background",
  warning |-> "Warning", alert |-> "Urgency", text_input |-> "Field_Highlight"]
Palette == [map |-> [f \in DOMAIN MapFields |-> Item(MapFields[f], 0)],
            sector |-> [f \in DOMAIN SectorFields |-> Item(SectorFields[f], 13158600)],
            track |-> [f \in DOMAIN TrackFields |-> PluginOf(TrackFields[f])[1]],
            ui |-> [f \in DOMAIN WindowFields |-> PluginOf(WindowFields[f])[1]],
            named |-> [n \in CNames \cup {"CARD_Mark_All"} \cup RandomSubset(40, BuiltinNames) |-> ColourOf(n)]]
Drawn(k) == SFlat(SMap(Recs(k), LAMBDA r : SFlat(SMap(r.g, LAMBDA f :
   LET ls == SelectSeq(SMap(f.lines, DrawLine), LAMBDA p : p # <<>>)
       c == IF f.c = "" THEN <<>> ELSE ColourOf(f.c)
   IN IF ls = <<>> THEN <<>> ELSE <<[n |-> r.n, c |-> IF c = <<>> THEN KindColour(k) ELSE c[1], lines |-> ls]>>))))
ByName(s) == [n \in {s[i].n : i \in DOMAIN s} |-> SMap(SelectSeq(s, LAMBDA r : r.n = n), LAMBDA r : [k \in DOMAIN r \ {"n"} |-> r[k]])]
\* airways: the segments between known places, per name; records that run on from each other
\* over places not met before are one line
AirRecs(k, n) == SelectSeq(Recs(k), LAMBDA r : r.n = n /\ At(r.s) # <<>> /\ At(r.e) # <<>>)
Chained(q) == /\ q # <<>>
              /\ \A i \in 1..Len(q)-1 : At(q[i].e) = At(q[i+1].s)
              /\ \A i \in 1..Len(q) : \A j \in 1..i : At(q[i].e) # At(q[j].s)
AirSegs(k) == [n \in {r.n : r \in Range(Recs(k))} |->
   LET q == AirRecs(k, n)
   IN [segs |-> SMap(q, LAMBDA r : <<At(r.s)[1], At(r.e)[1]>>),
       chain |-> IF Chained(q) THEN <<<<At(q[1].s)[1]>> \o SMap(q, LAMBDA r : At(r.e)[1])>> ELSE <<>>]]
Texts(k) == LET q == Recs(k) IN [n \in {r.n : r \in Range(q)} |-> SelectSeq(q, LAMBDA r : r.n = n)]

----------------------------------------------------------------------------
(* Values; "~" and "^" stand for characters outside ASCII *)
FixNames == {"ARMUT", "RTT", "N125", "WI520"}
Loc == PtNames \cup FixNames
GNames == {"EDDF SID 07C CINDYxX", "EHWO STAR Q12 Q12", "AoR APP EDDF EDDF NTZ 07", "HIGHWAYS LOVV", "GEO", "A-1/b.c", "X^ ~ (y)", "N049 E011", "12", "colour 1", "x", "A name that is rather longer than the column it has got in the file"}
Vals == {0, 255, 65280, 16711680, 12676579, 16777215, 16777216, 2147483647}
Info0 == [name : {"AeroNav M^nchen 2401/1-1 EDMM", "World (x)"}, call : {"AERO_NAV", "lon_S_CTR", "1"}, apt : {"ZZZZ", "LOWW", "1A"}, lat : 1..13, ml : {"60", "59.75", "0"}, mg : {"39", "39.5", "0.125"}, mv : {"-3", "2.25", "0", "-0.0625"}, sf : {"1", "0.5", "-2", "0", "10.25", ""}]
BadRecs == {"AB C N049.00.00.000 E011.00.00.000", "ABC N049.00.00.000", "ABC 112.3", "ABC", "ABC Nxx.00.00.000 E011.00.00.000", "^^ 1"}
RVor(z) == [n |-> RE({"NUB", "OTT", "RTT", "A1", "Q", "LONGVOR9"}), f |-> RE({"112.300", "108", "0.5", "112.3", "1234.5678"}), p |-> RE(1..13)]
RFix(z) == [n |-> RE(FixNames \cup {"(FM-C)", "a/b", "X[1]", "F.", "F^", "1", "!X", "F!", "_", "f.", "F.1", "VERYLONGFIX_NAME"}), p |-> RE(1..13)]
RApt(z) == [n |-> RE({"EDDM", "EDNX", "N125", "Q", "EDDMX"}), p |-> RE(1..13), a |-> RE({"A", "B", "C", "D", "E", "F", "G"})]
RRwy(z) == [d1 |-> RE({"08L", "08R", "18", "07C", "08"}), d2 |-> RE({"26R", "36", "26L", "25G", "08L", "18"}), h1 |-> RE({80, 1, 360, 0, 99, 100}), h2 |-> RE({260, 180, 1000}), p1 |-> RE(1..13), p2 |-> RE(1..13), apt |-> RE({"EDDM", "EDNX", "Q", "EDDMX", "1A"})]
RAwy(z) == [n |-> RE({"L602", "B73", "a-1", "(X)", "VERYLONGAIRWAY1", "L60", "b73", "1"}), s |-> RE(Loc), e |-> RE(Loc)]
RReg(z) == [n |-> RE({"EDDM Groundlayout", "R-1", "", "N1 ^", "A region with a name longer than its column"}), c |-> RE(CNames), ps |-> [i \in 1..RE({1, 2, 3, 4, 12, 70}) |-> RE(1..13)]]
RLab(z) == [n |-> RE({"A52-A69", "", " both  ends ", "; x", "//y", "\t", "x ; y", "[q] ^", "a // b", "A label with a name that is longer than most are, and has a comma"}), p |-> RE(1..13), c |-> RE(CNames)]
RLine(S, C) == [s |-> RE(S), e |-> RE(S), c |-> RE(C \cup {"", ""})]
\* mostly continues where the last line of the group ended
LastEnd == LET g == Last(secs[open]).g IN Last(Last(Last(g).lines))
RMore(S, C) == [s |-> IF RE(1..3) > 1 THEN LastEnd ELSE RE(S), e |-> IF RE(1..9) = 1 THEN LastEnd ELSE RE(S), c |-> IF RE(1..3) > 1 THEN Last(Last(secs[open]).g).c ELSE RE(C \cup {""})]
RRec == CASE open \in {"VOR", "NDB"} -> RVor(0) [] open = "FIXES" -> RFix(0) [] open = "AIRPORT" -> RApt(0) [] open = "RUNWAY" -> RRwy(0)
          [] open \in Airways -> RAwy(0) [] open = "REGIONS" -> RReg(0) [] OTHER -> RLab(0)

Init == /\ open = "" /\ secs = EmptyF /\ cols = EmptyF /\ info = <<>> /\ src = EmptyF /\ plug = [ts |-> EmptyF, sym |-> EmptyF, coop |-> <<>>] /\ hist = <<>>
\* exhaustive: lines of one section over few places and colours
LP == {"p1", "p2", "RTT"}
NextLines == \/ open = "" /\ Open("GEO")
             \/ open # "" /\ \E s \in LP, e \in LP, c \in {"", "c1"} : (Recs(open) = <<>> /\ Group("EHWO STAR Q12 Q12", [s |-> s, e |-> e, c |-> c])) \/ More([s |-> s, e |-> e, c |-> c])
             \/ open # "" /\ Recs(open) # <<>> /\ \E e \in LP : Group("GEO", [s |-> "p1", e |-> e, c |-> ""])
\* exhaustive: every order of sections with a record each, definitions and remarks between
One(k) == CASE k \in {"VOR", "NDB"} -> [n |-> "RTT", f |-> "112.300", p |-> 2] [] k = "FIXES" -> [n |-> "(FM-C)", p |-> 4] [] k = "AIRPORT" -> [n |-> "EDDM", p |-> 13, a |-> "D"]
            [] k = "RUNWAY" -> [d1 |-> "08L", d2 |-> "26R", h1 |-> 80, h2 |-> 260, p1 |-> 1, p2 |-> 5, apt |-> "EDDM"]
            [] k \in Airways -> [n |-> "B73", s |-> "p1", e |-> "RTT"] [] k = "REGIONS" -> [n |-> "R-1", c |-> "c1", ps |-> <<1, 2, 3>>]
            [] OTHER -> [n |-> "x ; y", p |-> 1, c |-> "c1"]
NextOrder == \/ \E k \in Sections : Open(k)
             \/ info = <<>> /\ Header([name |-> "World (x)", call |-> "A", apt |-> "ZZZZ", lat |-> 1, ml |-> "60", mg |-> "39", mv |-> "-3", sf |-> ""])
             \/ \E v \in {255, 16777216} : Define("c1", v)
             \/ open \in Groups /\ Group("GEO", [s |-> "p1", e |-> "p2", c |-> "c1"])
             \/ open \notin Groups \cup {"", "INFO"} /\ Add(One(open))
             \/ Broken("ABC N049.00.00.000")
             \/ Remark
Kinds == Groups
Fill == \E k \in R1(1..10) :
   CASE k = 1 -> \E n \in R1(CNames), v \in R1(Vals) : Define(n, v)
     [] k = 2 /\ open \in {"FIXES", "NDB"} -> \E t \in R1(BadRecs) : Broken(t)
     [] k = 3 /\ Last(hist).op # "remark" -> Remark
     \* the same once more
     [] k = 4 /\ open \notin Groups /\ Recs(open) # <<>> -> \E r \in R1(Range(Recs(open))) : Add(r)
     [] k = 4 /\ open \in Groups /\ Has(src, open) -> \E i \in R1(DOMAIN src[open]) : Group(secs[open][i].n, src[open][i][1])
     [] OTHER -> IF open \in Groups
                 THEN IF hist # <<>> /\ Last(hist).op \in {"group", "more"} /\ k # 4 THEN \E l \in R1({RMore(Loc, CNames)}) : More(l)
                      ELSE \E n \in R1(GNames), l \in R1({RLine(Loc, CNames)}) : Group(n, l)
                 ELSE \E r \in {RRec} : Add(r)
Turn == \E k \in R1(Sections \ DOMAIN secs) : Open(k)
\* drawing: places, few names, colours in all sources
DLoc == {"p1", "p2", "p3", "ARMUT", "RTT", "N125"}
DCols == {"c1", "C-2", "C1", "Concerned", "CARD_Mark_All", "Weather_Map", "concerned"}
Draw == \E k \in R1(1..14) :
   CASE k = 1 -> \E n \in R1(DCols), v \in R1({255, 65280, 1, 16777216}) : Define(n, v)
     [] k = 2 -> \E n \in R1(DCols \cup DOMAIN Builtin), v \in R1({255, 65280, 1193046}) : Plugin(n, v)
     [] k \in {3, 4} -> \E s \in R1(Kinds), v \in R1(1..200) : Symbology(KindItem[s], v)
     [] k = 6 -> \E s \in R1({MapFields[f] : f \in DOMAIN MapFields} \cup {SectorFields[f] : f \in DOMAIN SectorFields}), v \in R1({1, 200, 65536, 16777215, 16777216, 12345678}) : Symbology(s, v)
     [] k = 7 /\ plug.coop = <<>> -> \E v \in R1({"0", "0", "1", "2"}) : Variant(v)
     [] OTHER -> IF open \in Groups
                 THEN IF hist # <<>> /\ Last(hist).op \in {"group", "more"} /\ k # 5 THEN \E l \in R1({RMore(DLoc, DCols)}) : More(l)
                      ELSE \E n \in R1({"GEO", "HIGHWAYS LOVV"}), l \in R1({RLine(DLoc, DCols)}) : Group(n, l)
                 ELSE \E r \in {RRec} : Add(r)
AirPlaces == {"p1", "p2", "p3", "p6", "p10", "RTT", "ARMUT"}
\* mostly on from the last place, to one seldom passed before
Air == \E r \in {IF open \in Airways
                 THEN [n |-> RE({"L602", "B73", "L602"}), s |-> IF secs[open] # <<>> /\ RE(1..3) # 1 THEN Last(secs[open]).e ELSE RE(AirPlaces),
                       e |-> IF secs[open] # <<>> /\ RE(1..4) = 1 THEN Last(secs[open]).s ELSE IF RE(1..2) = 1 THEN RE(PtNames) ELSE RE(AirPlaces)]
                 ELSE [n |-> RE({"RTT", "NOTUS"}), f |-> "112.300", p |-> RE(1..3)]} :
         \E x \in (IF open \in Airways THEN TwinOf(secs[open], r) ELSE {r}) : Add(x)
AirTurn == \E k \in R1((Airways \cup {"VOR"}) \ DOMAIN secs) : Open(k)
LineTurn == \E k \in R1(Groups \ DOMAIN secs) : Open(k)
Next == /\ Len(hist) < Depth
        /\ IF Mode = "sim" THEN
              (IF open = "" THEN (IF Focus = "lines" THEN LineTurn ELSE IF Focus = "air" THEN AirTurn ELSE IF Focus = "all" /\ RE(1..3) = 1 THEN \E v \in R1(Info0) : Header(v) ELSE Turn)
               ELSE \E d \in R1(1..5) :
                  IF open = "INFO" /\ d > 2 THEN \E n \in R1(CNames), v \in R1(Vals) : Define(n, v)
                  ELSE IF open = "INFO" \/ d = 1
                  THEN (IF Focus = "air" THEN (IF (Airways \cup {"VOR"}) \subseteq DOMAIN secs THEN Air ELSE AirTurn)
                        ELSE IF Focus = "lines" THEN (IF Groups \subseteq DOMAIN secs THEN Fill ELSE LineTurn)
                        ELSE IF Focus = "all" /\ info = <<>> /\ RE(1..3) = 1 THEN \E v \in R1(Info0) : Header(v)
                        ELSE IF Sections \subseteq DOMAIN secs THEN Define("c1", 7) ELSE Turn)
                  ELSE CASE Focus = "draw" -> Draw [] Focus = "air" -> Air [] OTHER -> Fill)
           ELSE IF Focus = "lines" THEN NextLines ELSE NextOrder
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification *)
GroupOK(r, ls) ==
   LET flat == SFlat(SMap(r.g, LAMBDA f : SFlat(SMap(f.lines, LAMBDA p : IF Len(p) = 1 THEN <<>> ELSE SMap(Segs(p), LAMBDA q : [s |-> q[1], e |-> q[2], c |-> f.c])))))
   IN /\ flat = SelectSeq(ls, LAMBDA l : l.s # l.e)                \* every segment once, in order, in its colour
      /\ \A i \in 1..Len(r.g)-1 : r.g[i].c # r.g[i+1].c            \* one group per run of a colour
      /\ \A i \in 1..Len(r.g) : \A j \in 1..Len(r.g[i].lines) : \A k \in 1..Len(r.g[i].lines[j])-1 : r.g[i].lines[j][k] # r.g[i].lines[j][k+1]
SegmentsKept == \A k \in DOMAIN src : \A i \in DOMAIN src[k] : GroupOK(secs[k][i], src[k][i])
\* reading what is written gives the group again, and joined lines are joined as far as they can be
ReadsBack == \A k \in DOMAIN src : \A i \in DOMAIN src[k] : JoinAll(Written(secs[k][i].g)) = secs[k][i].g
Maximal == \A k \in DOMAIN src : \A i \in DOMAIN src[k] : \A f \in Range(secs[k][i].g) : \A j \in 1..Len(f.lines)-1 : Last(f.lines[j]) # f.lines[j+1][1]

Show(k) == Recs(k)
X == CASE Focus = "draw" -> [drawn |-> [k \in Kinds |-> ByName(Drawn(k))], palette |-> Palette, regions |-> Texts("REGIONS"), labels |-> Texts("LABELS")]
       [] Focus = "air" -> [air |-> [k \in Airways |-> AirSegs(k)]]
       [] OTHER -> [secs |-> [k \in Sections |-> Recs(k)], cols |-> cols, info |-> info]
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ (Len(hist) = Depth \/ (Len(hist) > 2 /\ Len(hist) % 7 = 0))) => Case([h |-> hist, x |-> X])
=============================================================================
