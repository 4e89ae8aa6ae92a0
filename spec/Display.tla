------------------------------- MODULE Display -------------------------------
(* What the symbology file and the plugin say about how things look: symbols,   *)
(* line styles, styles and labels of map elements, tracks.                       *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus   \* Focus: "source" | "rules" | "style" | "item"

VARIABLES plugin,   \* is there a plugin
          ts,       \* symbol name -> drawing rules, plugin's symbol file
          ms,       \* the same, from the plugin's map file
          sy,       \* symbol number -> drawing rules, symbology
          st,       \* upper-case name -> dash lengths, plugin's line styles
          it,       \* <<folder, name>> -> item of the symbology
          se,       \* plugin settings
          hist
vars == <<plugin, ts, ms, sy, st, it, se, hist>>
View == <<plugin, ts, ms, sy, st, it, se>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

----------------------------------------------------------------------------
(* Drawing rules. Numbers are tenths, angles degrees. *)
Rem(a) == IF a >= 0 THEN a % 360 ELSE -((-a) % 360)
Meaning(r) ==
  LET a == r.a IN
  CASE r.k = "MOVETO" -> [k |-> "Move", a |-> a]
    [] r.k = "LINETO" -> [k |-> "Line", a |-> a]
    [] r.k = "SETPIXEL" -> [k |-> "Pixel", a |-> a]
    [] r.k = "ARC" -> [k |-> "Arc", a |-> <<a[1], a[2], a[3], Rem(a[4]), Rem(a[5])>>]
    [] r.k = "FILLARC" -> [k |-> "FilledArc", a |-> <<a[1], a[2], a[3], Rem(a[4]), Rem(a[5])>>]
    \* an elliptic arc of equal radii is a circular one
    [] r.k = "ARC2" /\ a[3] = a[4] -> [k |-> "Arc", a |-> <<a[1], a[2], a[3], Rem(a[5]), Rem(a[6])>>]
    [] r.k = "ARC2" -> [k |-> "EllipticArc", a |-> <<a[1], a[2], a[3], a[4], Rem(a[5]), Rem(a[6])>>]
    [] r.k = "FILLARC2" /\ a[3] = a[4] -> [k |-> "FilledArc", a |-> <<a[1], a[2], a[3], Rem(a[5]), Rem(a[6])>>]
    [] r.k = "FILLARC2" -> [k |-> "FilledEllipticArc", a |-> <<a[1], a[2], a[3], a[4], Rem(a[5]), Rem(a[6])>>]
    [] r.k = "ELLIPSE" -> [k |-> "FilledArc", a |-> a \o <<0, 0>>]
    [] r.k = "ELLIPSE2" -> [k |-> "FilledEllipticArc", a |-> a \o <<0, 0>>]
    [] r.k = "FILLRECT" -> [k |-> "Polygon", a |-> <<a[1], a[2], a[3], a[2], a[3], a[4], a[1], a[4]>>]
    [] OTHER -> [k |-> "Polygon", a |-> a]
Draw(rs) == SMap(rs, Meaning)

M(x, y) == [k |-> "Move", a |-> <<10 * x, 10 * y>>]
L(x, y) == [k |-> "Line", a |-> <<10 * x, 10 * y>>]
C(r) == [k |-> "Arc", a |-> <<0, 0, 10 * r, 0, 360>>]
Built(f) ==
  CASE f = "history_dot" -> <<[k |-> "Polygon", a |-> <<-10, -10, 10, -10, 10, 10, -10, 10>>]>>
    [] f = "fix" -> <<M(-5, 5), L(0, -5), L(5, 5), L(-5, 5)>>
    [] f = "ndb" -> <<[k |-> "Pixel", a |-> <<0, 0>>], C(1), C(3), C(5)>>
    [] f = "vor" -> <<M(-6, 0), L(-2, -5), L(2, -5), L(6, 0), L(2, 5), L(-2, 5), L(-6, 0), M(-6, -5), L(-6, 5), L(6, 5), L(6, -5), L(-6, -5)>>
    [] f = "airport" -> <<M(-3, -3), L(3, -3), L(3, 3), L(-3, 3), L(-3, -3), M(5, 0), L(-6, 0), M(0, 5), L(0, -6)>>
    [] f = "primary" -> <<M(-3, -3), L(4, 4), M(-3, 3), L(4, -4)>>
    [] f = "controlled" -> <<M(-5, 0), L(0, -5), L(5, 0), L(0, 5), L(-5, 0)>>
    [] f = "uncontrolled" -> <<M(-4, 3), L(0, -4), L(3, 3), L(-4, 3)>>
    [] f = "coasted" -> <<M(-4, -4), L(-4, 4), L(4, 4), L(4, -4)>>
\* symbol -> its name in the plugin's files and its number in the symbology
Fields == EmptyF
  @@ "history_dot" :> <<"HISTORY", 14>> @@ "fix" :> <<"FIX", 3>> @@ "ndb" :> <<"NDB", 1>> @@ "vor" :> <<"VOR", 2>> @@ "airport" :> <<"AIRPORT", 0>>
  @@ "primary" :> <<"PRIMARY", 5>> @@ "coasted" :> <<"COASTED", 13>> @@ "uncontrolled" :> <<"UNCONTROLLED", 18>> @@ "controlled" :> <<"DAPS", 9>>
\* the plugin's symbols: those of the map file come over those of the symbol file
Named == [n \in DOMAIN ts \cup DOMAIN ms |-> IF Has(ms, n) THEN ms[n] ELSE ts[n]]
Symbol(f) == IF Has(Named, Fields[f][1]) THEN Draw(Named[Fields[f][1]])
             ELSE IF Has(sy, Fields[f][2]) THEN Draw(sy[Fields[f][2]])
             ELSE Built(f)

----------------------------------------------------------------------------
(* Line styles *)
Pairwise(d) == [i \in 1..Len(d) \div 2 |-> <<d[2*i-1], d[2*i]>>]
BuiltStyles == EmptyF @@ "SOLID" :> <<>> @@ "DOT" :> <<<<1, 1>>>> @@ "ALTERNATE" :> <<<<1, 1>>>> @@ "DASH" :> <<<<3, 3>>>>
  @@ "DASHDOT" :> <<<<3, 3>>, <<1, 3>>>> @@ "DASHDOTDOT" :> <<<<3, 3>>, <<1, 3>>, <<1, 3>>>>
\* <<>>: drawn through
Styles == [n \in DOMAIN BuiltStyles \cup DOMAIN st |-> IF Has(BuiltStyles, n) THEN BuiltStyles[n] ELSE Pairwise(st[n])]

----------------------------------------------------------------------------
(* Items of the symbology, settings of the plugin *)
LineItems == EmptyF
  @@ "runway_centreline" :> <<"Runways", "centerline">> @@ "geo" :> <<"Geo", "line">> @@ "sid" :> <<"Sids", "line">> @@ "star" :> <<"Stars", "line">>
  @@ "high_airways" :> <<"High airways", "line">> @@ "low_airways" :> <<"Low airways", "line">> @@ "artcc_low" :> <<"ARTCC low boundary", "line">>
  @@ "artcc" :> <<"ARTCC boundary", "line">> @@ "artcc_high" :> <<"ARTCC high boundary", "line">>
LabelItems == EmptyF @@ "vor" :> <<"VORs", "name">> @@ "ndb" :> <<"NDBs", "name">> @@ "fix" :> <<"Fixes", "name">> @@ "airport" :> <<"Airports", "name">> @@ "runway" :> <<"Runways", "name">>
StyleName == <<"SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT">>
LineOf(f) == IF Has(it, LineItems[f]) THEN LET i == it[LineItems[f]] IN [w |-> i.w, s |-> StyleName[i.s + 1]] ELSE [w |-> 1, s |-> "SOLID"]
Vertical == <<"Top", "Center", "Bottom">>
Align(n) == <<IF n < 6 THEN "Left" ELSE IF n < 12 THEN "Center" ELSE "Right", Vertical[1 + (n % 6)]>>
\* sizes in twentieths: 3.5 of an item's size, which is in tenths
LabelOf(f) == IF Has(it, LabelItems[f]) THEN LET i == it[LabelItems[f]] IN [z |-> 7 * i.z, a |-> Align(i.a)] ELSE [z |-> 210, a |-> <<"Center", "Center">>]
\* a setting's value is written text with the number it is in tenths, if it is one
Setting(k, d) == IF Has(se, k) /\ se[k].n # <<>> THEN se[k].n[1] ELSE d
Integral(k, d) == IF Has(se, k) /\ se[k].n # <<>> /\ se[k].n[1] % 10 = 0 /\ se[k].n[1] >= 0 /\ se[k].int THEN se[k].n[1] \div 10 ELSE d
\* the choices offered, in tenths of a minute and in dots, are the same whatever is set
Lengths == <<5>> \o [i \in 1..10 |-> 10 * i] \o <<150, 200>>
Track == [choices |-> [vector |-> Lengths, dots |-> [i \in 1..9 |-> i - 1]]] @@
         IF ~plugin THEN [vector |-> [on |-> FALSE, len |-> 10], dots |-> [on |-> FALSE, n |-> 6]]
         ELSE [vector |-> [on |-> Setting("Track_PredictionLine", 10) # 0, len |-> IF Setting("Track_PredictionLine", 10) = 0 THEN 10 ELSE Setting("Track_PredictionLine", 10)],
               dots |-> [on |-> Integral("Track_HistoryDots", 6) # 0, n |-> IF Integral("Track_HistoryDots", 6) = 0 THEN 6 ELSE Integral("Track_HistoryDots", 6)]]
MapFont == IF plugin THEN Setting("Maps_FontSize", 120) ELSE 120

----------------------------------------------------------------------------
TsSymbol(n, rs) == ts' = Put(ts, n, rs) /\ plugin' = TRUE /\ Log([op |-> "tsym", n |-> n, rs |-> rs]) /\ UNCHANGED <<ms, sy, st, it, se>>
MapSymbol(n, rs) == ms' = Put(ms, n, rs) /\ plugin' = TRUE /\ Log([op |-> "msym", n |-> n, rs |-> rs]) /\ UNCHANGED <<ts, sy, st, it, se>>
\* numbers of no known symbol mean nothing
EsSymbol(n, rs) == sy' = (IF n < 24 THEN Put(sy, n, rs) ELSE sy) /\ Log([op |-> "esym", n |-> n, rs |-> rs]) /\ UNCHANGED <<plugin, ts, ms, st, it, se>>
\* the last definition of a style counts, in whatever letter case
Style(n, d) == st' = Put(st, n.u, d) /\ plugin' = TRUE /\ Log([op |-> "style", n |-> n.t, d |-> d]) /\ UNCHANGED <<ts, ms, sy, it, se>>
\* an item of an impossible colour is no item
Item(i) == it' = (IF i.c < 16777216 THEN Put(it, i.n, i) ELSE it) /\ Log([op |-> "item", i |-> i]) /\ UNCHANGED <<plugin, ts, ms, sy, st, se>>
Set(k, v) == se' = Put(se, k, v) /\ plugin' = TRUE /\ Log([op |-> "set", k |-> k, v |-> v]) /\ UNCHANGED <<ts, ms, sy, st, it>>

----------------------------------------------------------------------------
N(z) == RE({0, 10, -10, 50, -60, 5, -32, 125, 1, -9, RE(-400..400), RE(-99999..99999)})
Ang(z) == RE({0, 90, 360, 45, 450, -90, 359, 720, -400, -360, 180, RE(-1100..1100)})
Rad(z) == RE({10, 30, 55, 5, 80, 30, RE(0..400)})
RRule(z) == RE({[k |-> "MOVETO", a |-> <<N(0), N(0)>>], [k |-> "LINETO", a |-> <<N(0), N(0)>>], [k |-> "SETPIXEL", a |-> <<N(0), N(0)>>],
    [k |-> "ARC", a |-> <<N(0), N(0), Rad(0), Ang(0), Ang(0)>>], [k |-> "FILLARC", a |-> <<N(0), N(0), Rad(0), Ang(0), Ang(0)>>],
    [k |-> "ARC2", a |-> <<N(0), N(0), Rad(0), Rad(0), Ang(0), Ang(0)>>], [k |-> "FILLARC2", a |-> <<N(0), N(0), Rad(0), Rad(0), Ang(0), Ang(0)>>],
    [k |-> "ELLIPSE", a |-> <<N(0), N(0), Rad(0)>>], [k |-> "ELLIPSE2", a |-> <<N(0), N(0), Rad(0), Rad(0)>>],
    [k |-> "FILLRECT", a |-> <<N(0), N(0), N(0), N(0)>>], [k |-> "POLYGON", a |-> [i \in 1..2 * RE({1, 2, 3, 4, 5, 9, 17}) |-> N(0)]]})
RRules(z) == [i \in 1..RE({1, 2, 3, 4, 5, 12}) |-> RRule(0)]
TsNames == {Fields[f][1] : f \in DOMAIN Fields} \cup {"APPFix", "my symbol^", "daps", "NODAPS_DIV"}
EsNumbers == 0..26
StyleNames == {[t |-> "Long", u |-> "LONG"], [t |-> "LONG", u |-> "LONG"], [t |-> "long", u |-> "LONG"], [t |-> "Dash", u |-> "DASH"], [t |-> "SOLID", u |-> "SOLID"],
               [t |-> "dashdotdot", u |-> "DASHDOTDOT"], [t |-> "x-y 1", u |-> "X-Y 1"], [t |-> "Alternate", u |-> "ALTERNATE"], [t |-> "DashDot2", u |-> "DASHDOT2"]}
Dashes(z) == [i \in 1..RE({0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 16, 24}) |-> RE({0, 1, 3, 5, 20, 150, 127, 255, RE(1..250)})]
ItemNames == {LineItems[f] : f \in DOMAIN LineItems} \cup {LabelItems[f] : f \in DOMAIN LabelItems} \cup {<<"Other", "line">>, <<"Geo", "name">>}
RItem(z) == [n |-> RE(ItemNames), c |-> RE({0, 255, 16777215, 16777216, 32768}), z |-> RE({10, 35, 30, 0, 45, 100, 5, 1, 99, 250}), s |-> RE(0..4), w |-> RE({0, 1, 2, 7, 25, 99}), a |-> RE({0, 1, 2, 6, 7, 8, 12, 13, 14})]
V(t, n, i) == [t |-> t, n |-> n, int |-> i]
Values == {V("0", <<0>>, TRUE), V("3", <<30>>, TRUE), V("12", <<120>>, TRUE), V("2.5", <<25>>, FALSE), V("", <<>>, FALSE), V("x", <<>>, FALSE), V("-1", <<-10>>, FALSE), V("0.0", <<0>>, FALSE), V("15,5", <<>>, FALSE)}
Keys == {"Maps_FontSize", "Track_HistoryDots", "Track_PredictionLine", "Airspace_Time"}

Init == /\ plugin = FALSE /\ ts = EmptyF /\ ms = EmptyF /\ sy = EmptyF /\ st = EmptyF /\ it = EmptyF /\ se = EmptyF /\ hist = <<>>
Mark(i) == <<[k |-> "MOVETO", a |-> <<10 * i, -i>>]>>
NextSource == \E f \in DOMAIN Fields :
   \/ ~Has(ts, Fields[f][1]) /\ TsSymbol(Fields[f][1], Mark(1))
   \/ ~Has(ms, Fields[f][1]) /\ MapSymbol(Fields[f][1], Mark(2))
   \/ EsSymbol(Fields[f][2], Mark(Len(hist) + 3))
NextStyle == \E n \in StyleNames, d \in {<<>>, <<5>>, <<5, 2>>, <<1, 2, 3, 4>>, <<7, 8, 9>>} : Style(n, d)
NextItem == \/ \E n \in ItemNames, v \in 1..2, c \in {0, 16777216} : Item([n |-> n, c |-> c, z |-> 10 * v, s |-> 2 * v - 1, w |-> v + 1, a |-> 13 * v - 13])
            \/ \E k \in Keys, v \in Values : Set(k, v)
Fill == \E k \in R1(1..12) :
   CASE Focus = "style" -> \E n \in R1(StyleNames), d \in {Dashes(0)} : Style(n, d)
     [] Focus = "item" -> IF k < 9 THEN \E i \in {RItem(0)} : Item(i) ELSE \E q \in R1(Keys), v \in R1(Values) : Set(q, v)
     [] OTHER -> \E rs \in {RRules(0)} : IF k < 4 THEN \E n \in R1(TsNames) : TsSymbol(n, rs) ELSE IF k < 7 THEN \E n \in R1(TsNames) : MapSymbol(n, rs) ELSE \E n \in R1(EsNumbers) : EsSymbol(n, rs)
Next == /\ Len(hist) < Depth
        /\ IF Mode = "sim" THEN Fill
           ELSE CASE Focus = "source" -> NextSource [] Focus = "style" -> NextStyle [] OTHER -> NextItem
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* nothing but a definition of its own changes a symbol
Own == [][\A f \in DOMAIN Fields : Symbol(f)' # Symbol(f) =>
            LET r == Last(hist') IN (r.op \in {"tsym", "msym"} /\ r.n = Fields[f][1]) \/ (r.op = "esym" /\ r.n = Fields[f][2])]_vars
\* the built-in line styles stay
StylesStay == \A n \in DOMAIN BuiltStyles : Styles[n] = BuiltStyles[n]
\* every style that was ever defined is there
StylesKept == [][DOMAIN Styles \subseteq DOMAIN Styles']_vars
X == CASE Focus \in {"source", "rules"} -> [symbols |-> [f \in DOMAIN Fields |-> Symbol(f)], named |-> [n \in DOMAIN Named |-> Draw(Named[n])]]
       [] Focus = "style" -> [styles |-> Styles]
       [] OTHER -> [lines |-> [f \in DOMAIN LineItems |-> LineOf(f)], labels |-> [f \in DOMAIN LabelItems |-> LabelOf(f)], track |-> Track, font |-> MapFont]
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ (Len(hist) = Depth \/ Len(hist) % 4 = 1)) => Case([h |-> hist, x |-> X])
=============================================================================
