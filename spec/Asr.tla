--------------------------------- MODULE Asr ---------------------------------
(* A display file: settings, each line on its own, plugin settings, and the list   *)
(* of sector-file elements that are switched on.                                     *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES set,    \* setting -> its value, where given
          plug,   \* plugin and key -> value
          shown,  \* elements switched on, in order
          hist
vars == <<set, plug, shown, hist>>
View == <<set, plug, shown>>
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

\* how a value is written, and what it means
V(t, m) == [t |-> t, m |-> m]
Bool == {V("0", "false"), V("1", "true")}
Feet == {V("0", "none"), V("00000", "none"), V("24500", "24500"), V("1", "1"), V("007", "7"), V("65536", "65536"), V("4294967295", "4294967295")}
Free == {V(x, x) : x \in {"", "\\Sect\\EDMM.sct", "a:b", "Matias (built in)", "x ^ ~ y", "0"}}
Area(a, b) == V(<<a, b>>, <<a, b>>)
Areas == {Area(a, b) : a \in 1..14, b \in 1..14}
Values == [above |-> Feet, below |-> Feet,
           pan |-> Bool, zoom |-> Bool, geo |-> Bool, radar |-> Bool, shleader |-> Bool, shc |-> Bool, shsb |-> Bool, turn |-> Bool,
           rot |-> {V("0.00000", "0"), V("90", "90"), V("-12.5", "-12.5"), V("359.99000", "359.99"), V("-0.25", "-0.25"), V("1234567", "1234567")},
           type |-> {V("Standard ES radar screen", "Radar"), V("Ground Radar display", "GroundRadar"), V("Own screen ^", "Radar"), V("", "Radar"), V("ground radar display", "Radar")},
           dots |-> {V(ToString(i), ToString(i)) : i \in {0, 1, 4, 5, 6, 12, 127, 128, 254, 255}},
           leader |-> {V(ToString(i), "nm " \o ToString(i)) : i \in {1, 2, 3, 10, 126, 127}} \cup {V(ToString(-i), "min " \o ToString(i)) : i \in {0, 1, 2, 3, 10, 127, 128}},
           file |-> Free, title |-> Free, tag |-> Free,
           sim |-> {V("1", "Radar"), V("4", "Ground"), V("2", "Radar"), V("3", "Radar"), V("14", "Radar"), V("-1", "Radar")}]
Scalars == DOMAIN Values
Default == [above |-> "none", below |-> "none", pan |-> "false", zoom |-> "false", geo |-> "true", radar |-> "true", shleader |-> "false", shc |-> "true",
            shsb |-> "false", turn |-> "false", rot |-> "0", type |-> "Radar", dots |-> "5", leader |-> "min 3", file |-> "", title |-> "",
            tag |-> "Matias (built in)", sim |-> "Radar"]
\* nothing said: the part of the earth shown by default, <<0, 0>>
\* elements, by kind, and what of them can be shown
How == [runways |-> {"centreline", "name"}, airports |-> {"symbol", "name"}, fixes |-> {"symbol", "name"}, ndbs |-> {"symbol", "name", "frequency"},
        vors |-> {"symbol", "name", "frequency"}, low |-> {"line", "name"}, high |-> {"line", "name"}, ground |-> {"exit", "taxiway", "terminal taxiway"},
        sids |-> {""}, stars |-> {""}, geos |-> {""}, regions |-> {""}, artcc |-> {""}, artccl |-> {""}, artcch |-> {""}, text |-> {""}]
Kinds == DOMAIN How
Names(k) == CASE k = "runways" -> {"EDDM 08L-26R", "EDDM 08R-26L", "EDDM 08L-26L", "EDMO Oberpfaffenhofen ^ 04-22", "EDXX 09W-27G"}
              [] k = "text" -> {"Airspace\\FL95", "Airspace\\", "A 1\\b ^", "\\x", "A 2\\c\\d"}
              [] OTHER -> {"EDDM", "RTT", "Terminal 2 ^", "a\\b", "1", "", "eddm", "EDDM ", "runway", "N", "Free Text", "A very long name of nothing in particular, with a comma"}

\* of several lines of one setting the first counts
Set(k, v) == /\ set' = (IF Has(set, k) THEN set ELSE Put(set, k, v.m)) /\ UNCHANGED <<plug, shown>> /\ Log([op |-> "set", k |-> k, t |-> v.t])
SetArea(v) == /\ set' = (IF Has(set, "area") THEN set ELSE Put(set, "area", v.m)) /\ UNCHANGED <<plug, shown>> /\ Log([op |-> "area", v |-> v.t])
\* of several plugin lines of one key the last
Plugin(p, k, v) == plug' = Put(plug, <<p, k>>, v) /\ UNCHANGED <<set, shown>> /\ Log([op |-> "plugin", p |-> p, k |-> k, v |-> v])
Show(k, n, h) == shown' = Append(shown, [k |-> k, n |-> n, h |-> h]) /\ UNCHANGED <<set, plug>> /\ Log([op |-> "show", k |-> k, n |-> n, h |-> h])
\* extended centrelines are understood but not kept
Ext(n, h) == UNCHANGED <<set, plug, shown>> /\ Log([op |-> "ext", n |-> n, h |-> h])

ExtHow == {"extended centerline " \o n \o w : n \in {"1", "2"}, w \in {"", " left ticks", " left vectoring", " left base", " right ticks", " right vectoring", " right base"}}
PNames == {"TopSky plugin", "X", "", "x", "TopSky"}
PKeys == {"ShowMapData", "A", "b c", "a", "ShowMapData2", "-"}
PVals == {"", "APP,EDDM_APP", "a:b:c", "^", "0"}
Init == set = EmptyF /\ plug = EmptyF /\ shown = <<>> /\ hist = <<>>
NextExh == \/ \E k \in Scalars : \E v \in Values[k] : Set(k, v)
           \/ \E v \in {Area(1, 2), Area(5, 6)} : SetArea(v)
           \/ \E p \in {"X", ""}, k \in {"A"}, v \in {"", "1"} : Plugin(p, k, v)
           \/ \E k \in Kinds : \E h \in How[k] : \E n \in {CHOOSE x \in Names(k) : TRUE} : Show(k, n, h)
           \/ \E h \in ExtHow : Ext("EDDM 08L-26R", h)
NextSim == \E n \in R1(1..12) :
   CASE n \in 1..4 -> \E k \in R1(Scalars) : \E v \in R1(Values[k]) : Set(k, v)
     [] n = 5 -> \E v \in R1(Areas) : SetArea(v)
     [] n \in {6, 7} -> \E p \in R1(PNames), k \in R1(PKeys), v \in R1(PVals) : Plugin(p, k, v)
     [] n = 8 -> \E h \in R1(ExtHow), x \in R1(Names("runways")) : Ext(x, h)
     [] OTHER -> \E k \in R1(Kinds) : \E h \in R1(How[k]), x \in R1(Names(k)) : Show(k, x, h)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Val(k) == IF Has(set, k) THEN set[k] ELSE Default[k]
X == [v |-> [k \in Scalars |-> Val(k)], area |-> IF Has(set, "area") THEN set["area"] ELSE <<0, 0>>,
      plug_s |-> Pairs(plug), shown |-> [k \in Kinds |-> SMap(SelectSeq(shown, LAMBDA e : e.k = k), LAMBDA e : <<e.n, e.h>>)]]
\* a line says nothing about what it does not name
Own == [][/\ Cardinality({k \in Scalars : Val(k) # Val(k)'}) <= 1
          /\ (set' # set => plug' = plug /\ shown' = shown)
          /\ IsPrefix(shown, shown')]_vars
\* what a line has settled stays settled
Settled == [][\A k \in DOMAIN set : set'[k] = set[k]]_vars
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ (Len(hist) = Depth \/ Len(hist) % 8 = 0)) => Case([h |-> hist, x |-> X])
=============================================================================
