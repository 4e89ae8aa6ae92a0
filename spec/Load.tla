-------------------------------- MODULE Load --------------------------------
(* Loading a profile: which files it needs, what becomes of the ones it can do      *)
(* without, and that what is loaded is what the files say now.                      *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES disk,    \* <<place, file>> -> what lies there: 0 nothing, -1 something that cannot be read as such, -2 a folder, else its version
          point,   \* setting -> <<place>> or <<>>
          prf,     \* the profile itself
          toml,    \* the list of the profile and its overlays
          ovs,     \* the overlays, in order
          recent,  \* the display files opened last that the profile lists, <<number, name>> in the order of their lines
          hist
vars == <<disk, point, prf, toml, ovs, recent, hist>>
View == <<disk, point, prf, toml, ovs, recent>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

Needed == {"sct", "ese", "airway", "symbology", "airports", "navdata", "aircraft", "airlines"}
Plugin == {"tsset", "tssym", "tsmap"}
Overlays == {"o1", "o2"}
Files == Needed \cup Plugin \cup {"squawks"}
Places == {"a", "b"}
Required == {"sector", "airways", "SettingsfileSYMBOLOGY", "airports", "airportcoords", "aircraft", "airlines"}
Settings == Required \cup {"TopSky", "Squawks"}
SettingOf(f) == CASE f \in {"sct", "ese"} -> "sector" [] f = "airway" -> "airways" [] f = "symbology" -> "SettingsfileSYMBOLOGY" [] f = "navdata" -> "airportcoords"
                  [] f \in Plugin -> "TopSky" [] f = "squawks" -> "Squawks" [] OTHER -> f
KindOf(f) == CASE f = "sct" -> "Sct" [] f = "ese" -> "Ese" [] f = "airway" -> "Airways" [] f = "symbology" -> "Symbology" [] f = "airports" -> "Airports"
               [] f = "navdata" -> "NavdataAirports" [] f = "aircraft" -> "Aircraft" [] f = "airlines" -> "Airlines"
Spots == (Places \X Files) \cup ({"o"} \X Overlays)

Put1(s, v) == disk' = Put(disk, s, v) /\ Log([op |-> "put", s |-> s, v |-> v]) /\ UNCHANGED <<point, prf, toml, ovs, recent>>
Point(k, p) == point' = Put(point, k, p) /\ Log([op |-> "point", k |-> k, p |-> p]) /\ UNCHANGED <<disk, prf, toml, ovs, recent>>
Profile(v) == prf' = v /\ Log([op |-> "prf", v |-> v]) /\ UNCHANGED <<disk, point, toml, ovs, recent>>
Toml(v) == toml' = v /\ Log([op |-> "toml", v |-> v]) /\ UNCHANGED <<disk, point, prf, ovs, recent>>
Listed(s) == ovs' = s /\ Log([op |-> "ovs", v |-> s]) /\ UNCHANGED <<disk, point, prf, toml, recent>>
Recent(n, f) == recent' = Append(recent, <<n, f>>) /\ Log([op |-> "recent", n |-> n, f |-> f]) /\ UNCHANGED <<disk, point, prf, toml, ovs>>

----------------------------------------------------------------------------
\* the file a setting leads to
At(f) == LET p == point[SettingOf(f)] IN IF p = <<>> THEN 0 ELSE disk[<<p[1], f>>]
\* what is wrong with a file without which nothing loads
Wrong(f) == IF point[SettingOf(f)] = <<>> THEN {"Prf"} ELSE CASE At(f) \in {0, -2} -> {"FileRead"} [] At(f) = -1 -> {KindOf(f)} [] OTHER -> {}
WrongOverlays == UNION {CASE disk[<<"o", o>>] = 0 -> {"FileRead"} [] disk[<<"o", o>>] < 0 -> {"Jsonnet"} [] OTHER -> {} : o \in Range(ovs)}
WrongProfile == CASE prf = 1 -> {} [] prf = 0 -> {"FileRead"} [] OTHER -> {"Prf"}
\* way: from the profile itself, with overlays applied to it, or from the list
WrongFor(way) ==
    IF way = "toml" /\ toml # 1 THEN (IF toml = 0 THEN {"FileRead"} ELSE {"TOML"})
    ELSE LET p == IF way # "toml" /\ prf = 0 THEN {"Prf"} ELSE WrongProfile
             o == CASE way = "prf" -> {} [] way = "overlays" /\ WrongOverlays # {} -> {"Jsonnet"} [] OTHER -> WrongOverlays
             \* nothing is known of the files without the profile
             n == IF p # {} THEN {} ELSE UNION {Wrong(f) : f \in Needed}
         IN p \cup o \cup n
\* the plugin's files count together or not at all; its symbols may be missing
PluginOk == At("tsset") > 0 /\ At("tsmap") > 0 /\ At("tssym") # -1
\* the files numbered 1 to 9, in order of their numbers; the last line of a number counts
RecentFiles(z) == LET of(n) == SelectSeq(recent, LAMBDA x : x[1] = n) IN SFlat([n \in 1..9 |-> IF of(n) = <<>> THEN <<>> ELSE <<Last(of(n))[2]>>])
One(v) == IF v > 0 THEN <<v>> ELSE <<>>
Parts(way) == [needed |-> [f \in Needed |-> At(f)],
               tsset |-> IF PluginOk THEN One(At("tsset")) ELSE <<>>, tsmap |-> IF PluginOk THEN One(At("tsmap")) ELSE <<>>, tssym |-> IF PluginOk THEN One(At("tssym")) ELSE <<>>,
               squawks |-> One(At("squawks")), files |-> RecentFiles(0),
               \* the last overlay has the last word; all have their say
               overlay |-> IF way = "prf" \/ ovs = <<>> THEN <<>> ELSE <<disk[<<"o", Last(ovs)>>]>>,
               said_s |-> IF way = "prf" THEN <<>> ELSE SetToSeq({<<o, disk[<<"o", o>>]>> : o \in Range(ovs)})]
Outcome(way) == IF WrongFor(way) # {} THEN [way |-> way, ok |-> FALSE, kinds |-> SetToSeq(WrongFor(way)), parts |-> <<>>]
                ELSE [way |-> way, ok |-> TRUE, kinds |-> <<>>, parts |-> <<Parts(way)>>]
X(o) == [i \in 1..3 |-> Outcome(<<"prf", "overlays", "toml">>[i])]
Load == /\ TRUE
        /\ \E x \in {X(0)} : Log([op |-> "load", x |-> x])
        /\ UNCHANGED View

Init == /\ disk = [s \in Spots |-> IF s[1] = "b" THEN 2 ELSE 1] /\ point = [k \in Settings |-> <<"a">>] /\ prf = 1 /\ toml = 1 /\ ovs = <<>> /\ recent = <<>> /\ hist = <<>>
NextExh == \/ \E s \in Spots, v \in {0, -1, -2, 2, 3} : (s[1] = "b" => v = 3) /\ Put1(s, v)
           \/ \E k \in Settings, p \in {<<>>, <<"b">>} : Point(k, p)
           \/ \E v \in {0, -1} : Profile(v)
           \/ \E v \in {0, -1} : Toml(v)
           \/ \E n \in 0..11, f \in {"u", "v"} : Recent(n, f)
           \/ \E s \in {<<"o1">>, <<"o1", "o2">>, <<"o2", "o1">>} : Listed(s)
\* mostly good files, so that loads succeed often
NextSim == \E k \in R1(1..14) :
             \/ k <= 4 /\ \E s \in R1(Spots), v \in R1({1, 2, 3}) : Put1(s, v)
             \/ k = 5 /\ \E s \in R1(Spots), v \in R1({0, -1, -2}) : Put1(s, v)
             \* what is broken is mended
             \/ k \in {6, 7} /\ \E b \in {{s \in Spots : disk[s] <= 0}} : \E s \in R1(IF b = {} THEN Spots ELSE b), v \in R1(1..3) : Put1(s, v)
             \/ k = 8 /\ \E b \in {{q \in Settings : point[q] = <<>>}} : \E q \in R1(IF b = {} THEN Settings ELSE b), p \in R1(Places) : Point(q, <<p>>)
             \/ k = 9 /\ \E q \in R1({"TopSky", "Squawks", "airlines", "sector"}) : Point(q, <<>>)
             \/ k = 10 /\ \E v \in R1({0, -1}) : (IF prf # 1 THEN Profile(1) ELSE IF toml # 1 THEN Toml(1) ELSE IF RE(1..2) = 1 THEN Profile(v) ELSE Toml(v))
             \/ k = 11 /\ \E s \in R1({<<>>, <<"o1">>, <<"o2">>, <<"o1", "o2">>, <<"o2", "o1">>, <<"o1", "o1">>, <<"o1", "o2", "o1">>}) : Listed(s)
             \/ k = 12 /\ Load
             \/ k > 12 /\ \E n \in R1(0..12), f \in R1({"u", "v", "w x", "^~", "u.v", "no end"}) : Recent(n, f)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* optional files never keep anything from loading, and never change what the others say
Optional == [][(hist'[Len(hist')].op = "put" /\ hist'[Len(hist')].s[2] \in Plugin \cup {"squawks"}) =>
               \A w \in {"prf", "overlays", "toml"} : /\ WrongFor(w)' = WrongFor(w)
                                                       /\ WrongFor(w) = {} => Parts(w)'.needed = Parts(w).needed]_vars
\* of the two places only the ones the profile names count
Unread == [][(hist'[Len(hist')].op = "put" /\ hist'[Len(hist')].s[1] \in Places /\ point[SettingOf(hist'[Len(hist')].s[2])] # <<hist'[Len(hist')].s[1]>>) => X(0)' = X(0)]_vars
Loading == [][hist'[Len(hist')].op = "load" => UNCHANGED View]_vars
\* what loads the longer way loads the shorter way
Ways == (WrongFor("overlays") = {} => WrongFor("prf") = {}) /\ (WrongFor("toml") = {} => WrongFor("overlays") = {})
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X(0)']) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ Len(hist) = Depth) => Case([h |-> hist, x |-> X(0)])
=============================================================================
