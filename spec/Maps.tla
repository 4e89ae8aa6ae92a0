-------------------------------- MODULE Maps ---------------------------------
(* The plugin's map file read line by line: settings that hold from there on,     *)
(* things that are drawn with the settings in force, conditions under which a map  *)
(* is shown, and the folders the maps end up in.                                   *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus   \* Focus: "style" | "folder" | "active"

VARIABLES maps,   \* the maps so far, the last one being read
          cur,    \* settings in force
          buf,    \* collected points
          over,   \* overridden folders
          base,   \* configured font size, in quarters
          hist
vars == <<maps, cur, buf, over, base, hist>>
View == <<maps, cur, buf, over, base>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

\* colours by name: two of the map file, one of the sector file, one built in
Colour == EmptyF @@ "Red" :> 255 @@ "Blue 1" :> 16711680 @@ "colour_S" :> 4660 @@ "Active_Map" :> 3845830
CNames == DOMAIN Colour \cup {"Nope"}
\* places: positions written out, fixes of the sector file, and names of nothing
Fixes == EmptyF @@ "RTT" :> 4 @@ "ARMUT" :> 7 @@ "N125" :> 2
Pt(i) == "p" \o ToString(i)
PtNames == {Pt(i) : i \in 1..13}
NumOf(s) == CHOOSE i \in 1..13 : Pt(i) = s
Names == DOMAIN Fixes \cup {"NOWHERE", "XXX 1"}
At(l) == IF l \in PtNames THEN <<NumOf(l)>> ELSE IF Has(Fixes, l) THEN <<Fixes[l]>> ELSE <<>>
Ats(ls) == SFlat(SMap(ls, At))

----------------------------------------------------------------------------
\* what is in force when a map begins; no colour yet means the first known one of the map
Fresh == [c |-> <<>>, fs |-> base, ly |-> 1, ls |-> "SOLID", lw |-> 1, asr |-> <<>>, zm |-> <<>>]
M == maps[Len(maps)]
\* a map says something
Begin(n) == /\ maps # <<>> => M.any
            /\ maps' = Append(maps, [name |-> n, folder |-> "AUTO", hidden |-> FALSE, first |-> <<>>, active |-> <<>>, els |-> <<>>, open |-> FALSE, any |-> FALSE])
            /\ cur' = Fresh /\ buf' = <<>> /\ Log([op |-> "map", n |-> n]) /\ UNCHANGED <<over, base>>
Upd(m) == maps' = [maps EXCEPT ![Len(maps)] = m]
\* a run of lines ends with whatever else is written
Shut == [M EXCEPT !.open = FALSE, !.any = TRUE]
Set(f, v, r) == /\ maps # <<>> /\ cur' = [cur EXCEPT ![f] = v] /\ Upd(Shut) /\ Log(r) /\ UNCHANGED <<buf, over, base>>
Col(n) == /\ maps # <<>> /\ Log([op |-> "col", n |-> n]) /\ UNCHANGED <<buf, over, base>>
          /\ IF Has(Colour, n) THEN /\ cur' = [cur EXCEPT !.c = <<Colour[n]>>]
                                    /\ Upd([Shut EXCEPT !.first = IF @ = <<>> THEN <<Colour[n]>> ELSE @])
             ELSE UNCHANGED cur /\ Upd(Shut)
Size(o, v) == Set("fs", CASE o = "=" -> v [] o = "+" -> cur.fs + v [] o = "-" -> cur.fs - v [] o = "*" -> cur.fs * (v \div 4) [] OTHER -> base, [op |-> "size", o |-> o, v |-> v])
Layer(v) == Set("ly", v, [op |-> "layer", v |-> v])
Zoom(v) == Set("zm", <<v>>, [op |-> "zoom", v |-> v])
Asr(v) == Set("asr", v, [op |-> "asr", v |-> v])
\* a style without a width has width 1
Style(n, w) == /\ maps # <<>> /\ cur' = [cur EXCEPT !.ls = n.u, !.lw = IF w = <<>> THEN 1 ELSE w[1]] /\ Upd(Shut) /\ Log([op |-> "style", n |-> n.t, w |-> w])
               /\ UNCHANGED <<buf, over, base>>
Nothing(t) == /\ maps # <<>> /\ Upd(Shut) /\ Log([op |-> "nothing", t |-> t]) /\ UNCHANGED <<cur, buf, over, base>>

El(k, v) == [k |-> k, v |-> v, st |-> cur]
Add(e, r) == /\ maps # <<>> /\ Upd([Shut EXCEPT !.els = IF e = <<>> THEN @ ELSE Append(@, e[1])]) /\ Log(r) /\ UNCHANGED <<cur, over, base>>
\* lines that run on within a run of lines are one
Line(s, e) ==
  LET l == Last(M.els).v
      run == M.open /\ Last(l) = s
  IN /\ maps # <<>> /\ Log([op |-> "line", s |-> s, e |-> e]) /\ UNCHANGED <<cur, buf, over, base>>
     /\ Upd([M EXCEPT !.open = TRUE, !.any = TRUE,
               !.els = IF run THEN (IF s = e THEN @ ELSE [@ EXCEPT ![Len(@)].v = Append(@, e)])
                       ELSE Append(@, El("line", IF s = e THEN <<s>> ELSE <<s, e>>))])
\* what is at no known place is not drawn
Sym(n, l, lab) == Add(IF At(l) = <<>> THEN <<>> ELSE <<El("sym", [n |-> n, p |-> At(l)[1], lab |-> lab])>>, [op |-> "sym", n |-> n, l |-> l, lab |-> lab]) /\ UNCHANGED buf
Text(l, t) == Add(IF At(l) = <<>> THEN <<>> ELSE <<El("text", [t |-> t, p |-> At(l)[1]])>>, [op |-> "text", l |-> l, t |-> t]) /\ UNCHANGED buf
Coord(l) == /\ maps # <<>> /\ buf' = Append(buf, l) /\ Upd(Shut) /\ Log([op |-> "coord", l |-> l]) /\ UNCHANGED <<cur, over, base>>
Poly == Add(<<El("poly", buf)>>, [op |-> "poly"]) /\ buf' = <<>>
CLine == Add(<<El("line", buf)>>, [op |-> "cline"]) /\ buf' = <<>>
\* many places of a ring or line at once
Coords(q) == /\ maps # <<>> /\ buf' = buf \o q /\ Upd(Shut) /\ hist' = hist \o SMap(q, LAMBDA l : [op |-> "coord", l |-> l]) /\ UNCHANGED <<cur, over, base>>
\* what was written before once more, wherever it was
Written == SelectSeq(SFlat(SMap(maps, LAMBDA m : m.els)), LAMBDA e : e.k # "line" \/ (Len(e.v) > 1 /\ (e.v[1] \in PtNames) = (e.v[2] \in PtNames)))
Again(e) == CASE e.k = "poly" -> Coords(e.v)
              [] e.k = "line" -> Line(e.v[1], e.v[2])
              [] e.k = "sym" -> Sym(e.v.n, IF e.v.p \in 1..13 THEN Pt(e.v.p) ELSE "RTT", e.v.lab)
              [] OTHER -> Text(IF e.v.p \in 1..13 THEN Pt(e.v.p) ELSE "RTT", e.v.t)

Folder(f) == /\ maps # <<>> /\ Upd([Shut EXCEPT !.folder = f]) /\ Log([op |-> "folder", f |-> f]) /\ UNCHANGED <<cur, buf, over, base>>
Hide == /\ maps # <<>> /\ Upd([Shut EXCEPT !.hidden = TRUE]) /\ Log([op |-> "hidden"]) /\ UNCHANGED <<cur, buf, over, base>>
Override(f) == /\ over' = over \cup {f} /\ Log([op |-> "over", f |-> f]) /\ UNCHANGED <<maps, cur, buf, base>>
\* an override of a single map leaves the folder as it is
OverrideOne(f, n) == Log([op |-> "overone", f |-> f, n |-> n]) /\ UNCHANGED <<maps, cur, buf, over, base>>
\* alternatives of conditions that must hold together
Active(a) == /\ maps # <<>> /\ Upd([Shut EXCEPT !.active = Append(@, <<a>>)]) /\ Log([op |-> "active", a |-> a]) /\ UNCHANGED <<cur, buf, over, base>>
AndActive(a) == /\ maps # <<>> /\ M.active # <<>> /\ Upd([Shut EXCEPT !.active[Len(M.active)] = Append(@, a)]) /\ Log([op |-> "and", a |-> a]) /\ UNCHANGED <<cur, buf, over, base>>

----------------------------------------------------------------------------
(* The result *)
\* maps without a known colour are not shown at all
Shown == SelectSeq(maps, LAMBDA m : m.first # <<>>)
RECURSIVE Free(_, _, _)
Free(taken, n, i) == LET c == n \o "_" \o ToString(i) IN IF c \in taken THEN Free(taken, n, i + 1) ELSE c
Place(acc, m) == LET taken == {k[2] : k \in {q \in DOMAIN acc : q[1] = m.folder}}
                 IN Put(acc, <<m.folder, IF m.name \in taken THEN Free(taken, m.name, 2) ELSE m.name>>, m)
Placed == FoldLeft(Place, EmptyF, Shown)
\* rings end where they begin (compared up to repetitions of the starting point at the end)
RECURSIVE Closed(_)
Closed(p) == IF Len(p) < 2 THEN p ELSE IF p[1] # Last(p) THEN Append(p, p[1])
             ELSE IF Len(p) > 2 /\ p[Len(p) - 1] = p[1] THEN Closed(Front(p)) ELSE p
\* an element as drawn
Drawn(m, e) == [v |-> CASE e.k = "line" -> Ats(e.v) [] e.k = "poly" -> Closed(Ats(e.v)) [] OTHER -> e.v,
                st |-> [e.st EXCEPT !.c = IF @ = <<>> THEN m.first ELSE @]]
Of(m, k) == SelectSeq(SMap(SelectSeq(m.els, LAMBDA e : e.k = k), LAMBDA e : Drawn(m, e)), LAMBDA d : d.v # <<>>)
Result(P) == {[folder |-> k[1], name |-> k[2], hidden |-> P[k].hidden, active |-> P[k].active,
            lines |-> Of(P[k], "line"), polys |-> Of(P[k], "poly"), syms |-> Of(P[k], "sym"), texts |-> Of(P[k], "text")] : k \in DOMAIN P}
Folders(P) == {[n |-> f, hidden |-> f = "AUTO" \/ f \in over] : f \in {k[1] : k \in DOMAIN P}}

----------------------------------------------------------------------------
SNames == {[t |-> "Dot", u |-> "DOT"], [t |-> "SOLID", u |-> "SOLID"], [t |-> "dashdot", u |-> "DASHDOT"], [t |-> "my-Style", u |-> "MY-STYLE"]}
MapNames == IF Focus = "many" THEN {"M", "M_2"} ELSE {"M", "M_2", "M_2_2", "LOVV ^ 1", "M_3", "*", "m", "M_02", "M_10"}
FolderNames == IF Focus = "many" THEN {"F1"} ELSE {"F1", "AUTO", "SECTOR LINES", "F^", "f1", "Auto"}
Labels == {<<>>, <<>>, <<[t |-> "lab el", x |-> 50, y |-> -35]>>, <<[t |-> "^", x |-> 0, y |-> 5]>>}
Texts == {"Text one", "a:b", "x ^ y", "12.5", "*", "a:b:c", "TEXT ONE", "very long text, with many words, of some note to the controller"}
\* lines that are read and mean nothing here
NoOps == {"GLOBAL", "SCREEN-SPECIFIC", "FONTSTYLE:0", "FONTSTYLE:700:0:1:0", "TEXTALIGN:LT", "TEXTALIGN:C", "CIRCLE:N048.00.00.000:E011.00.00.000:5:10", "COORD_CIRCLE:48.5:11.25:0.5:1",
          "COORD_AF:RTT:1:2.5:90:<:5", "COORD_AF:N048.00.00.000:E011.00.00.000:1:2:3:>:4", "COORD_HM:RTT:270M:L:1MIN:220KTS:5", "COORD_HM:48.5:11.25:90.5:R:4:20:10",
          "COORD_PBD:EDDM/08L:5.5:270", "TEXTALIGN:B", "TEXTALIGN:RT", "COORD_PBD:EDDN/28:5:9", "SCTDATA:GEO\\Red lines", "SCTFILEDATA:GEO\\x", "SCTFILEDATA/MONO:GEO\\x y"}
\* conditions
CS == {"EDM", "IGL", "EDMM_^", "EDDM_*", "A B", "1"}
NameList(z) == [i \in 1..RE(1..3) |-> RE(CS)]
Opt(z) == IF RE(1..3) = 1 THEN <<>> ELSE <<NameList(0)>>
Rwy(z) == [a |-> RE({"EDDM", "LOWI", "EDDN"}), d |-> RE({"08L", "26R", "08", "36C", "18G"})]
RwyOpt(z) == IF RE(1..3) = 1 THEN <<>> ELSE <<[i \in 1..RE(1..3) |-> Rwy(0)]>>
RActive(z) == RE({[k |-> "always"], [k |-> "sched", v |-> RE({"0101:1231:0:0000:2400", "240301:241027:135:0600:2200", "0101:241027:7:0000:0001"})],
   [k |-> "id", a |-> Opt(0), b |-> Opt(0), c |-> Opt(0), d |-> Opt(0)], [k |-> "callsign", a |-> Opt(0), b |-> Opt(0), c |-> Opt(0), d |-> Opt(0)],
   [k |-> "aup", a |-> NameList(0)], [k |-> "notam", i |-> RE({"EDMM", "LOVV"}), a |-> NameList(0)],
   [k |-> "area", a |-> NameList(0)], [k |-> "areax", a |-> NameList(0), b |-> NameList(0)],
   [k |-> "rwy", ra |-> RwyOpt(0), rb |-> RwyOpt(0)], [k |-> "rwyx", ra |-> RwyOpt(0), rb |-> RwyOpt(0), rc |-> RwyOpt(0), rd |-> RwyOpt(0)],
   [k |-> "map", o |-> RE({"=", "!"}), f |-> RE(FolderNames), n |-> RE({"M", "M 1/x", "^"})]})

Init == /\ maps = <<>> /\ cur = [c |-> <<>>, fs |-> 0, ly |-> 1, ls |-> "SOLID", lw |-> 1, asr |-> <<>>, zm |-> <<>>] /\ buf = <<>> /\ over = {} /\ hist = <<>>
        /\ base \in (IF Mode = "sim" THEN {48, 38} ELSE {48})
NextStyle == IF maps = <<>> THEN Begin("M")
   ELSE \/ Nothing("TEXTALIGN:LT") \/ Nothing("COORD_HM:48.5:11.25:90.5:R:4:20:10")
        \/ \E n \in {"Red", "Blue 1", "Nope"} : Col(n)
        \/ Size("=", 38) \/ Size("+", 6) \/ Layer(-2) \/ Zoom(95) \/ Asr(<<<<"APP", "CTR">>>>) \/ Style([t |-> "Dot", u |-> "DOT"], <<3>>)
        \/ Line("p1", "p2") \/ Line("p2", "p3") \/ Sym("FIX", "RTT", <<>>) \/ Text("p4", "t") \/ Coord("p5") \/ (buf # <<>> /\ (Poly \/ CLine))
MacroMap(n, f) == /\ maps' = Append(maps, [name |-> n, folder |-> IF f = <<>> THEN "AUTO" ELSE f[1], hidden |-> FALSE, first |-> <<255>>, active |-> <<>>, els |-> <<>>, open |-> FALSE, any |-> TRUE])
                  /\ hist' = hist \o <<[op |-> "map", n |-> n], [op |-> "col", n |-> "Red"]>> \o SMap(f, LAMBDA x : [op |-> "folder", f |-> x])
                  /\ UNCHANGED <<cur, buf, over, base>>
NextFolder == \/ \E n \in {"M", "M_2", "M_2_2"}, f \in {<<>>, <<"AUTO">>, <<"F1">>} : MacroMap(n, f)
              \/ over = {} /\ Override("F1")
              \/ over = {} /\ OverrideOne("F1", "A")
OptS == {<<>>, <<<<"A">>>>, <<<<"B", "A">>>>}
RwS == {<<>>, <<<<[a |-> "EDDM", d |-> "08L"], [a |-> "LOWI", d |-> "26"]>>>>}
ActS == {[k |-> "always"], [k |-> "sched", v |-> "0101:1231:0:0000:2400"]}
   \cup {[k |-> q, a |-> a, b |-> b, c |-> c, d |-> d] : q \in {"id", "callsign"}, a \in OptS, b \in OptS, c \in OptS, d \in OptS}
   \cup {[k |-> "aup", a |-> a[1]] : a \in OptS \ {<<>>}} \cup {[k |-> "notam", i |-> "EDMM", a |-> a[1]] : a \in OptS \ {<<>>}}
   \cup {[k |-> "area", a |-> a[1]] : a \in OptS \ {<<>>}} \cup {[k |-> "areax", a |-> a[1], b |-> b[1]] : a \in OptS \ {<<>>}, b \in OptS \ {<<>>}}
   \cup {[k |-> "rwy", ra |-> a, rb |-> b] : a \in RwS, b \in RwS} \cup {[k |-> "rwyx", ra |-> a, rb |-> b, rc |-> c, rd |-> d] : a \in RwS, b \in RwS, c \in RwS, d \in RwS}
   \cup {[k |-> "map", o |-> o, f |-> "F 1", n |-> "M"] : o \in {"=", "!"}}
NextActive == IF maps = <<>> THEN Begin("M") ELSE IF cur.c = <<>> THEN Col("Red")
              ELSE (\E a \in ActS : Active(a) \/ (M.active # <<>> /\ a \notin Range(SFlat(M.active)) /\ a.k \in {"always", "aup", "map", "area", "rwy"} /\ AndActive(a)))
Fill == \E k \in R1(1..27) : \E l \in R1(PtNames \cup Names), m \in R1(PtNames \cup Names) :
   CASE k = 1 /\ M.any -> \E n \in R1(MapNames) : Begin(n)
     [] k = 2 -> \E f \in R1(FolderNames) : Folder(f)
     [] k = 3 -> Hide
     [] k \in {4, 5} -> \E n \in R1(CNames) : Col(n)
     [] k = 6 -> \E o \in R1({"=", "+", "-", "*", "0"}) : \E v \in R1(IF o = "*" THEN (IF Abs(cur.fs) < 5000 THEN {8, 12, 4} ELSE {4}) ELSE {4, 10, 50, 36}) : Size(o, v)
     [] k = 7 -> \E v \in R1({-3, 0, 1, 5, 12, -1000, 1000}) : Layer(v)
     [] k = 8 -> \E v \in R1({5, 90, 125, 1, 10000}) : Zoom(v)
     [] k = 9 -> \E v \in R1({<<>>, <<<<"APP">>>>, <<<<"CTR", "EDDM_APP", "^">>>>}) : Asr(v)
     [] k = 10 -> \E n \in R1(SNames), w \in R1({<<>>, <<1>>, <<4>>, <<0>>, <<127>>}) : Style(n, w)
     [] k = 11 -> \E t \in R1(NoOps) : Nothing(t)
     [] k \in {12, 13} -> \E s \in R1(PtNames) : \E e \in R1(PtNames) : Line(s, e)
     [] k \in {14, 15} -> IF M.els # <<>> /\ Last(M.els).k = "line" /\ M.open
                  THEN \E s \in {Last(Last(M.els).v)} : \E e \in R1(IF s \in PtNames THEN PtNames ELSE Names) : Line(s, e)
                  ELSE \E s \in R1(Names), e \in R1(Names) : Line(s, e)
     [] k = 16 -> \E n \in R1({"FIX", "my symbol", "fix", "NODAPS_DIV"}), lab \in R1(Labels) : Sym(n, l, lab)
     [] k = 17 -> \E t \in R1(Texts) : Text(l, t)
     [] k \in 18..20 -> Coord(l)
     [] k = 21 /\ buf # <<>> -> Poly
     [] k = 22 /\ buf # <<>> -> CLine
     [] k \in {24, 25} /\ Written # <<>> -> \E i \in R1(1..Len(Written)) : Again(Written[i])
     [] k = 26 -> \E q \in {[i \in 1..RE({3, 5, 12, 40}) |-> RE(PtNames \cup Names)]} : Coords(q)
     [] k = 23 /\ M.any -> IF over = {} THEN \E f \in R1(FolderNames) : Override(f) ELSE \E n \in R1(MapNames) : Begin(n)
     [] OTHER -> \E a \in {RActive(0)} : IF M.active # <<>> /\ RE(1..2) = 1 THEN AndActive(a) ELSE Active(a)
FillActive == \E k \in R1(1..12) : \E a \in {RActive(0)} :
     CASE k = 1 /\ M.any -> \E n \in R1(MapNames) : Begin(n) [] k \in {2, 3} -> Col("Red") [] k \in 4..7 /\ M.active # <<>> -> AndActive(a) [] OTHER -> Active(a)
FillFolder == \E k \in R1(1..10) :
     CASE Focus = "many" /\ M.any /\ k < 10 -> \E n \in R1({"M", "M", "M", "M_2"}), f \in R1({<<>>, <<"F1">>, <<"F1">>}) : MacroMap(n, f)
       [] k \in 1..3 /\ M.any -> \E n \in R1(MapNames) : Begin(n) [] k \in 1..6 -> \E n \in R1({"Red", "Red", "Nope"}) : Col(n)
       [] k \in {7, 8} -> \E f \in R1(FolderNames) : Folder(f) [] k = 9 -> Hide [] k = 10 -> \E f \in R1(FolderNames), n \in R1(MapNames) : OverrideOne(f, n)
       [] OTHER -> \E f \in R1(FolderNames) : Override(f)
Next == /\ Len(hist) < (IF Focus = "folder" /\ Mode = "exh" THEN 3 * Depth ELSE Depth)
        /\ (Focus = "folder" /\ Mode = "exh") => Len(maps) < Depth
        /\ IF Mode = "sim" THEN (IF maps = <<>> THEN \E n \in R1(MapNames) : Begin(n)
                                 ELSE CASE Focus = "active" -> FillActive [] Focus \in {"folder", "many"} -> FillFolder [] OTHER -> Fill)
           ELSE CASE Focus = "style" -> NextStyle [] Focus = "folder" -> NextFolder [] OTHER -> NextActive
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* nothing that follows changes what is written; an open line may go on
Kept(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ a[i].st = b[i].st /\ (a[i].v = b[i].v \/ (i = Len(a) /\ a[i].k = "line" /\ IsPrefix(a[i].v, b[i].v)))
LaterChangesNothing == [][\A i \in 1..Len(maps) : Kept(maps[i].els, maps'[i].els)]_vars
\* no map is lost
NoneLost == LET P == Placed IN
            /\ Cardinality(DOMAIN P) = Len(Shown)
            /\ \A k \in DOMAIN P : P[k].folder = k[1] /\ IsPrefix(P[k].name, k[2])
\* conditions are kept in order
Conditions == \A i \in 1..Len(maps) : \A j \in 1..Len(maps[i].active) : maps[i].active[j] # <<>>
X == LET P == Placed IN [maps_s |-> SetToSeq(Result(P)), folders_s |-> SetToSeq(Folders(P)), n |-> Len(Shown)]
\* (a file may not end with a map that says nothing)
Whole == maps # <<>> => M.any
EmitT == IF Mode = "exh" /\ Whole' THEN Case([h |-> hist', b |-> base, x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ Whole /\ (Len(hist) >= Depth \/ (Len(hist) > 2 /\ Len(hist) % 9 = 0))) => Case([h |-> hist, b |-> base, x |-> X])
=============================================================================
