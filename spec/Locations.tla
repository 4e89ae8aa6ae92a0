------------------------------ MODULE Locations ------------------------------
(* What the adaptation knows about places: navaids, fixes, airports and        *)
(* runways read from the sector file and the two airport lists, the resolution *)
(* of place names, and the tests whether a place is known.                      *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus    \* Focus: "names" | "coords" | "airports" | "member"

VARIABLES vors, ndbs, fixes,    \* name -> places in file order
          apts,                 \* airports of the sector file: designator -> place (the last record)
          rwys,                 \* runway records in file order
          navd, icao,           \* the airport lists: designator -> record (the first)
          hist
vars == <<vors, ndbs, fixes, apts, rwys, navd, icao, hist>>
View == <<vors, ndbs, fixes, apts, rwys, navd, icao>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Pts == 1..13
AddTo(f, k, v) == Put(f, k, IF Has(f, k) THEN Append(f[k], v) ELSE <<v>>)
First(f, k, v) == IF Has(f, k) THEN f ELSE Put(f, k, v)
Log(r) == hist' = Append(hist, r)

AddVor(n, p) == vors' = AddTo(vors, n, p) /\ Log([op |-> "vor", n |-> n, p |-> p]) /\ UNCHANGED <<ndbs, fixes, apts, rwys, navd, icao>>
AddNdb(n, p) == ndbs' = AddTo(ndbs, n, p) /\ Log([op |-> "ndb", n |-> n, p |-> p]) /\ UNCHANGED <<vors, fixes, apts, rwys, navd, icao>>
AddFix(n, p) == fixes' = AddTo(fixes, n, p) /\ Log([op |-> "fix", n |-> n, p |-> p]) /\ UNCHANGED <<vors, ndbs, apts, rwys, navd, icao>>
AddApt(n, p) == apts' = Put(apts, n, p) /\ Log([op |-> "apt", n |-> n, p |-> p]) /\ UNCHANGED <<vors, ndbs, fixes, rwys, navd, icao>>
AddRwy(r) == rwys' = Append(rwys, r) /\ Log([op |-> "rwy", r |-> r]) /\ UNCHANGED <<vors, ndbs, fixes, apts, navd, icao>>
AddNav(n, p, m) == navd' = First(navd, n, [p |-> p, name |-> m]) /\ Log([op |-> "nav", n |-> n, p |-> p, name |-> m]) /\ UNCHANGED <<vors, ndbs, fixes, apts, rwys, icao>>
AddIcao(n, m, c) == icao' = First(icao, n, [name |-> m, country |-> c]) /\ Log([op |-> "icao", n |-> n, name |-> m, country |-> c])
                    /\ UNCHANGED <<vors, ndbs, fixes, apts, rwys, navd>>

----------------------------------------------------------------------------
(* Airports: the three sources combined *)
AptNames == DOMAIN apts \cup DOMAIN navd
RwysOf(n) == SelectSeq(rwys, LAMBDA r : r.apt = n)
Airport(n) ==
  [p |-> IF Has(apts, n) THEN apts[n] ELSE navd[n].p,
   name |-> IF Has(navd, n) THEN <<navd[n].name>> ELSE IF Has(icao, n) THEN <<icao[n].name>> ELSE <<>>,
   country |-> IF Has(icao, n) THEN <<icao[n].country>> ELSE <<>>,
   rwys |-> IF Has(apts, n) THEN RwysOf(n) ELSE <<>>]

(* Names. A queried name is its text together with how it can be read:          *)
(* [t |-> text] or with apt/des (runway), lat/ns/lng/ew (coordinate), base/brg/rng *)
None == <<>>
Found(d, p) == <<[d |-> d, p |-> p]>>
ByRunway(w) ==
  IF "apt" \notin DOMAIN w \/ w.apt \notin AptNames \/ Len(w.apt) # 4 \/ Len(w.des) \notin 2..3 THEN None
  ELSE LET c == SelectSeq(Airport(w.apt).rwys, LAMBDA r : w.des \in {r.d1, r.d2})
       IN IF c = <<>> THEN None ELSE Found(w.t, IF c[1].d1 = w.des THEN c[1].p1 ELSE c[1].p2)
ByName(w) == IF Has(vors, w.t) THEN Found(w.t, vors[w.t][1])
             ELSE IF Has(ndbs, w.t) THEN Found(w.t, ndbs[w.t][1])
             ELSE IF Has(fixes, w.t) THEN Found(w.t, fixes[w.t][1])
             ELSE IF w.t \in AptNames THEN Found(w.t, Airport(w.t).p)
             ELSE ByRunway(w)
\* digits of a coordinate, completed by the zero an abbreviated degree lacks
Full(s, even) == IF (Len(s) % 2 = 0) = even THEN <<s>> ELSE IF Len(s) > 0 /\ s[1] = 0 THEN <<>> ELSE <<(<<0>> \o s)>>
RECURSIVE Digits(_)
Digits(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o Digits(Tail(s))
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE 10 * Num(Front(s)) + Last(s)
\* degrees of dw digits, then minutes, then seconds: in seconds of arc
Arc(s, dw) == 3600 * Num(SubSeq(s, 1, dw)) + (IF Len(s) > dw THEN 60 * Num(SubSeq(s, dw + 1, dw + 2)) ELSE 0)
              + (IF Len(s) > dw + 2 THEN Num(SubSeq(s, dw + 3, dw + 4)) ELSE 0)
ByCoordinate(w) ==
  IF "lat" \notin DOMAIN w THEN None
  ELSE LET a == Full(w.lat, TRUE)
           b == Full(w.lng, FALSE)
       IN IF w.ns \notin {"N", "S"} \/ w.ew \notin {"E", "W"} \/ Len(w.lat) \notin 1..6 \/ Len(w.lng) \notin 2..7 \/ a = <<>> \/ b = <<>> THEN None
          ELSE IF Len(b[1]) # Len(a[1]) + 1 THEN None
          ELSE <<[d |-> Digits(a[1]) \o w.ns \o Digits(b[1]) \o w.ew,
                  lat |-> (IF w.ns = "N" THEN 1 ELSE -1) * Arc(a[1], 2), lng |-> (IF w.ew = "E" THEN 1 ELSE -1) * Arc(b[1], 3)]>>
ByBearing(w) ==
  IF "base" \notin DOMAIN w THEN None
  ELSE LET f == ByName([t |-> w.base]) IN IF f = None THEN None ELSE <<[d |-> w.t, from |-> f[1].p, brg |-> w.brg, rng |-> w.rng]>>
OrElse(a, b) == IF a # None THEN a ELSE b
Resolve(w) == OrElse(ByName(w), OrElse(ByCoordinate(w), ByBearing(w)))
Known(w) == ByName(w) # None
\* the same place: the name at that position, as a navaid or fix
Places(n) == UNION {IF Has(f, n) THEN Range(f[n]) ELSE {} : f \in {vors, ndbs, fixes}}

----------------------------------------------------------------------------
Coord(lat, ns, lng, ew) == [t |-> Digits(lat) \o ns \o Digits(lng) \o ew, lat |-> lat, ns |-> ns, lng |-> lng, ew |-> ew]
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Bearing(b, brg, rng) == [t |-> b \o Pad3(brg) \o Pad3(rng), base |-> b, brg |-> brg, rng |-> rng]
Rwy(a, d) == [t |-> a \o d, apt |-> a, des |-> d]
Plain(t) == [t |-> t]
C1 == Coord(<<4,9>>, "N", <<0,1,2>>, "E")
B1 == Bearing("ABC", 90, 20)
R1w == Rwy("EDDM", "08L")
\* names of navaids and fixes; some look like other things
Names == {"ABC", "ABCDE", "EDDM", "M1", "DM424", C1.t, B1.t, R1w.t}
FixOnly == {"A-1", "(X)", "ab", "F^"}
AptsN == {"EDDM", "EDDN", "ABC", "EDNX", "1X2Y"}
Queries == {Plain(n) : n \in {"ABC", "ABCDE", "EDDM", "EDDN", "EDNX", "1X2Y", "M1", "DM424", "A-1", "(X)", "ab", "F^", "NOSUCH", "", "abc", "EDD", "abc^08"}}
           \cup {C1, B1, Coord(<<4,9,3,0>>, "S", <<1,1,4,5>>, "W"), Coord(<<4,9>>, "N", <<0,1,2,0,0>>, "E")}
           \cup {Bearing("M1", 0, 1), Bearing("EDDM", 359, 100), Bearing("NOSUC", 10, 10), Bearing("ABCDE", 180, 999), Bearing("DM424", 45, 0), Bearing("ABCDEF", 1, 1),
                  Bearing("ABC", 360, 50), Bearing("M1", 270, 500), Bearing("ABCDE", 225, 7), Bearing("EDDN", 999, 10), Bearing("M1", 361, 60), Bearing("DM424", 8, 800)}
           \cup {Rwy(a, d) : a \in AptsN, d \in {"08L", "26R", "18", "18C"}} \cup {Rwy("EDDM", "8L"), Rwy("EDDM", "08LL"), Rwy("ABC", "08LX")}
Rwys0 == [d1 : {"08L", "08R", "18"}, d2 : {"26R", "36", "26L"}, p1 : {1, 5}, p2 : {2}, apt : AptsN, h1 : {80}, h2 : {260}]

LatForms == {<<>>, <<0,0>>, <<0,0,0,0>>, <<0,0,0,0,0,0>>, <<4,9>>, <<9>>, <<0>>, <<0,9>>, <<9,0>>, <<9,0,0,0,0,0>>, <<9,3,0>>, <<0,3,0>>, <<4,9,3,0>>, <<0,0,0,1>>, <<9,3,0,5,9>>, <<0,3,0,5,9>>, <<4,9,3,0,5,9>>, <<0,9,0,0,0,7>>, <<4,9,3,0,5,9,1>>}
LngForms == {<<>>, <<0,0,0>>, <<0,0,0,0,0>>, <<0,0,0,0,0,0,0>>, <<7>>, <<1,2>>, <<0,2>>, <<0,1,2>>, <<1,7,9>>, <<1,2,4,5>>, <<0,2,4,5>>, <<0,1,2,4,5>>, <<1,0,0,0,1>>, <<1,2,4,5,5,9>>, <<0,2,4,5,5,9>>, <<0,1,2,4,5,5,9>>, <<1,8,0>>, <<1,8,0,0,0>>, <<1,8,0,0,0,0,0>>, <<1,7,9,5,9,5,9>>, <<0,0,0,0,0,0,1>>, <<0,0,1,2,4,5,5,9>>}

Init == /\ vors = EmptyF /\ ndbs = EmptyF /\ fixes = EmptyF /\ apts = EmptyF /\ rwys = <<>> /\ navd = EmptyF /\ icao = EmptyF /\ hist = <<>>
\* exhaustive: few names, every kind at two places
ExhPts == {1, 2}
NextExh == \/ \E n \in {"ABC", "EDDM"}, p \in ExhPts : AddVor(n, p) \/ AddNdb(n, p) \/ AddFix(n, p) \/ AddApt(n, p)
           \/ \E p \in ExhPts : AddFix(R1w.t, p) \/ AddFix(B1.t, p) \/ AddFix(C1.t, p)
           \/ AddRwy([d1 |-> "08L", d2 |-> "26R", p1 |-> 1, p2 |-> 2, apt |-> "EDDM", h1 |-> 80, h2 |-> 260])
           \/ AddRwy([d1 |-> "26R", d2 |-> "08L", p1 |-> 2, p2 |-> 3, apt |-> "EDDM", h1 |-> 260, h2 |-> 80])
           \/ AddNav("EDDM", 3, "Munich")
NextApt == \/ \E n \in {"EDDM", "EDDN"}, p \in ExhPts : AddApt(n, p)
           \/ \E n \in {"EDDM", "EDDN"}, m \in {"Munich", "Other Name"} : AddNav(n, 3, m) \/ AddIcao(n, m, "Germany")
           \/ AddIcao("EDDM", "Third", "Bavaria") \/ AddIcao("EDDN", "", "")
           \/ \E n \in {"EDDM", "EDDN"}, d \in {"08L", "18"} : AddRwy([d1 |-> d, d2 |-> "26R", p1 |-> 1, p2 |-> 2, apt |-> n, h1 |-> 80, h2 |-> 260])
NextMem == \E n \in {"ABC", "EDDM"}, p \in {1, 2, 10} : AddVor(n, p) \/ AddNdb(n, p) \/ AddFix(n, p) \/ AddApt(n, p)
\* simulation
NextSim == \E k \in R1(1..10), n \in R1(Names), f \in R1(FixOnly), a \in R1(AptsN), p \in R1(Pts), m \in R1({"Munich", "BERLIN/X", "N^rnberg ~ A"}) :
   CASE k = 1 -> AddVor(n, p)
     [] k = 2 -> AddNdb(n, p)
     [] k \in {3, 4} -> AddFix(n, p)
     [] k = 5 -> AddFix(f, p)
     [] k = 6 -> AddApt(a, p)
     [] k = 7 -> AddNav(a, p, m)
     [] k = 8 -> AddIcao(a, RE({m, ""}), RE({"Germany", "C^te", "A B", ""}))
     [] OTHER -> \E q \in {[d1 |-> RE({"08L", "08R", "18", "26R"}), d2 |-> RE({"26R", "36", "26L", "08L", "18C"}), p1 |-> RE(Pts), p2 |-> RE(Pts), apt |-> RE(AptsN), h1 |-> RE({80, 1, 360}), h2 |-> RE({260, 180})]} : \E r \in TwinOf(rwys, q) : AddRwy(r)
Next == Len(hist) < Depth /\ IF Mode = "sim" THEN NextSim
        ELSE CASE Focus = "names" -> NextExh [] Focus = "airports" -> NextApt [] Focus = "member" -> NextMem [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification *)
\* a known name resolves to a place it has, and a VOR is never hidden by anything
ResolvesToOwn == \A w \in Queries : /\ Has(vors, w.t) => Resolve(w)[1].p = vors[w.t][1]
                                    /\ Known(w) => Resolve(w) # None /\ Resolve(w)[1].d = w.t
                                    /\ (w.t \in AptNames /\ Places(w.t) = {}) => Resolve(w)[1].p = Airport(w.t).p
\* nothing an earlier source gave is changed by a later one
SectorFileFirst == \A n \in AptNames : Has(apts, n) => Airport(n).p = apts[n]
Recs(o, n) == SelectSeq(hist, LAMBDA h : h.op = o /\ h.n = n)
ListsAreRecords == \A n \in Names \cup FixOnly :
    /\ (IF Has(vors, n) THEN vors[n] ELSE <<>>) = SMap(Recs("vor", n), LAMBDA h : h.p)
    /\ (IF Has(ndbs, n) THEN ndbs[n] ELSE <<>>) = SMap(Recs("ndb", n), LAMBDA h : h.p)
    /\ (IF Has(fixes, n) THEN fixes[n] ELSE <<>>) = SMap(Recs("fix", n), LAMBDA h : h.p)
SourcesFirst == /\ \A n \in DOMAIN navd : navd[n].name = Recs("nav", n)[1].name
                /\ \A n \in DOMAIN icao : icao[n].country = Recs("icao", n)[1].country

Ask(qs) == {[w |-> w.t, r |-> Resolve(w)] : w \in qs}
MemQ == {<<n, p>> : n \in {"ABC", "EDDM", "ABCDE", "M1", "A-1", "F^", R1w.t, "EDDN"}, p \in {1, 2, 3, 10, 5}}
X == CASE Focus = "names" -> [ask |-> Ask(Queries), vors |-> vors, ndbs |-> ndbs, fixes |-> fixes]
       [] Focus = "airports" -> [airports |-> [n \in AptNames |-> Airport(n)]]
       [] Focus = "member" -> [known |-> {[w |-> w.t, k |-> Known(w)] : w \in Queries}, at |-> {[n |-> q[1], p |-> q[2], k |-> q[2] \in Places(q[1])] : q \in MemQ}]
       [] OTHER -> [ask |-> Ask({Coord(a, ns, b, ew) : a \in LatForms, b \in LngForms, ns \in {"N", "S", "n", "E"}, ew \in {"E", "W", "N"}})]
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (IF Mode = "sim" THEN (Len(hist) = Depth \/ (Len(hist) > 2 /\ Len(hist) % 5 = 0)) ELSE Focus = "coords") => Case([h |-> hist, x |-> X])
=============================================================================
