--------------------------------- MODULE Ese --------------------------------
(* An ESE file read record by record: positions, airspace (border lines,       *)
(* sectors, agreements and records that must not matter), procedures, and       *)
(* sections of no interest; and the adaptation data made from it.               *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus     \* Focus: "space" | "ring" | "pos" | "proc" | "cop" | "all"

VARIABLES sec,      \* section being read ("" before the first)
          seen,     \* sections already read (each parsed section occurs at most once)
          pos,      \* identifier -> position
          lines,    \* line name -> sequence of points
          sects,    \* sector name -> its last record
          cops,     \* agreements in file order
          procs,    \* SIDs and STARs in file order
          walk,     \* (generation only) where the border being drawn stands: <<first, current>>
          hist
vars == <<sec, seen, pos, lines, sects, cops, procs, walk, hist>>
data == <<sec, seen, pos, lines, sects, cops, procs>>

RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
NP == 12                                   \* points of the harness table
Pts == 1..NP
\* random sequence over S of length 0..n
RSeq(S, n) == [i \in 1..RE(0..n) |-> RE(S)]
RSeq1(S, n) == [i \in 1..RE(1..n) |-> RE(S)]

----------------------------------------------------------------------------
Log(r) == hist' = Append(hist, r)
Section(s) == /\ s \notin seen /\ sec' = s
              /\ seen' = IF s \in {"POSITIONS", "AIRSPACE", "SIDSSTARS"} THEN seen \cup {s} ELSE seen
              /\ Log([op |-> "section", name |-> s]) /\ UNCHANGED <<pos, lines, sects, cops, procs, walk>>
\* text of a section that is not evaluated
Junk(k) == /\ sec \in {"FREETEXT", "RADAR", "GROUND"} /\ Log([op |-> "junk", k |-> k])
           /\ UNCHANGED <<sec, seen, pos, lines, sects, cops, procs, walk>>
Position(p) == /\ sec = "POSITIONS" /\ pos' = Put(pos, p.id, p) /\ Log([op |-> "pos", r |-> p])
               /\ UNCHANGED <<sec, seen, lines, sects, cops, procs, walk>>
Line(n, ps, w) == /\ sec = "AIRSPACE" /\ lines' = Put(lines, n, ps) /\ Log([op |-> "line", n |-> n, pts |-> ps])
                  /\ walk' = w /\ UNCHANGED <<sec, seen, pos, sects, cops, procs>>
Sector(r) == /\ sec = "AIRSPACE" /\ sects' = Put(sects, r.n, r) /\ Log([op |-> "sector", r |-> r])
             /\ UNCHANGED <<sec, seen, pos, lines, cops, procs, walk>>
Cop(r) == /\ sec = "AIRSPACE" /\ cops' = Append(cops, r) /\ Log([op |-> "cop", r |-> r])
          /\ UNCHANGED <<sec, seen, pos, lines, sects, procs, walk>>
\* circular lines, display lines and minimum safe altitudes: read, without effect
Other(k) == /\ sec = "AIRSPACE" /\ Log([op |-> "other", k |-> k]) /\ UNCHANGED <<sec, seen, pos, lines, sects, cops, procs, walk>>
Proc(r) == /\ sec = "SIDSSTARS" /\ procs' = Append(procs, r) /\ Log([op |-> "proc", r |-> r])
           /\ UNCHANGED <<sec, seen, pos, lines, sects, cops, walk>>

----------------------------------------------------------------------------
(* What the sub-settings of a sector record amount to *)
FirstOf(r, k) == LET c == SelectSeq(r.subs, LAMBDA u : u.k = k) IN IF c = <<>> THEN <<>> ELSE c[1].v
Actives(r) == SMap(SelectSeq(r.subs, LAMBDA u : u.k = "ACTIVE"), LAMBDA u : u.v)
\* border names resolve against all lines of the section, whatever the order
Border(r) == SMap(SelectSeq(FirstOf(r, "BORDER"), LAMBDA n : Has(lines, n)), LAMBDA n : lines[n])
ShowSector(r) == [n |-> r.n, lo |-> r.lo, hi |-> r.hi, owners |-> FirstOf(r, "OWNER"), dep |-> FirstOf(r, "DEPAPT"),
                  arr |-> FirstOf(r, "ARRAPT"), act |-> Actives(r), border |-> Border(r)]

(* Volumes: sectors whose border lines can be walked as one closed loop *)
EdgesOfLine(l) == [i \in 1..Max2(0, Len(l) - 1) |-> <<Min2(l[i], l[i+1]), Max2(l[i], l[i+1])>>]
EdgesOf(r) == SFlat(SMap(Border(r), EdgesOfLine))
Deg(es, v) == FoldLeft(LAMBDA acc, e : acc + (IF e[1] = v THEN 1 ELSE 0) + (IF e[2] = v THEN 1 ELSE 0), 0, es)
Used(es) == UNION {{es[i][1], es[i][2]} : i \in 1..Len(es)}
RECURSIVE Grow(_, _, _)
Grow(es, S, n) == IF n = 0 THEN S
                  ELSE Grow(es, S \cup UNION {{es[i][1], es[i][2]} : i \in {j \in 1..Len(es) : {es[j][1], es[j][2]} \cap S # {}}}, n - 1)
Closable(es) == /\ es # <<>> /\ \A v \in Used(es) : Deg(es, v) % 2 = 0
                /\ \A v \in Used(es) : Grow(es, {v}, Cardinality(Used(es))) = Used(es)
Volumes == {n \in DOMAIN sects : Closable(EdgesOf(sects[n]))}
(* Sectors: volumes with the same owners and the same runway conditions *)
GroupKey(n) == <<FirstOf(sects[n], "OWNER"), Actives(sects[n])>>
Groups == LET vs == Volumes
              keys == {GroupKey(n) : n \in vs}
          IN {{m \in vs : GroupKey(m) = k} : k \in keys}
ShowGroup(g) == LET n == CHOOSE x \in g : TRUE IN
   [vols_s |-> SetToSeq(g), owners |-> GroupKey(n)[1], act |-> GroupKey(n)[2],
    dep_s |-> SetToSeq(UNION {Range(FirstOf(sects[m], "DEPAPT")) : m \in g}),
    arr_s |-> SetToSeq(UNION {Range(FirstOf(sects[m], "ARRAPT")) : m \in g})]
ShowVolume(n) == [n |-> n, lo |-> sects[n].lo, hi |-> sects[n].hi, edges_s |-> EdgesOf(sects[n])]

(* Agreements with a level become constraints *)
Key(r) == <<r.prev, r.deprwy, r.next, r.arrrwy, r.fix, r.exit, r.entry>>
Leveled(dep) == SelectSeq(cops, LAMBDA r : IF dep THEN r.clb >= 0 ELSE r.clb < 0 /\ r.des >= 0)
\* as text: fix, sectors, levels in hundreds of feet, the departure or else the arrival runway, one blank between what is there
FL(n) == IF n < 0 THEN "" ELSE "FL" \o ToString(n \div 100)
Joined(parts) == FoldLeft(LAMBDA a, b : IF b = "" THEN a ELSE IF a = "" THEN b ELSE a \o " " \o b, "", parts)
RwyOf(r) == IF r.deprwy # "*" THEN r.deprwy ELSE r.arrrwy
Shown(r) == Joined(<<r.fix, r.exit, ">", r.entry, FL(r.clb), FL(r.des), IF RwyOf(r) = "*" THEN "" ELSE "[" \o RwyOf(r) \o "]">>)
ShowCop(r) == [k \in DOMAIN r \ {"fir"} |-> r[k]] @@ ("shown" :> Shown(r))
Keyed(s) == {s[i] : i \in {j \in 1..Len(s) : \A k \in j+1..Len(s) : Key(s[k]) # Key(s[j])}}

----------------------------------------------------------------------------
(* Values; "~" and "^" stand for characters outside ASCII *)
LineNames == {"L1", "L2", "EDMM~L 3", "l1", "L1 x", "L^4", "1"}
MoreNames == LineNames \cup {"L10", "L1#", "a line with a name of more than forty characters, really"}
SecNames == {"EDMM~ALB~105~135", "EDMM~ALB~105~245", "ALB", "alb", "ALB 2", "B~^", "A#L", "a sector with a name of more than forty characters"}
Owners == {"ALB", "EGG", "FRK", "M^", "10", "alb"}
Apts == {"EDDM", "EDDN", "ED-1", "LOWS"}
Rwys == {"08L", "26R", "08", "36"}
Sub(k, v) == [k |-> k, v |-> v]
SubOf(k) == CASE k = "OWNER" -> Sub(k, RSeq1(Owners, IF RE(1..8) = 1 THEN 20 ELSE 4))
              [] k = "BORDER" -> Sub(k, RSeq1(MoreNames \cup {"nosuch"}, IF RE(1..8) = 1 THEN 14 ELSE 4))
              [] k = "ACTIVE" -> Sub(k, <<RE(Apts), RE(Rwys)>>)
              [] k \in {"DEPAPT", "ARRAPT"} -> Sub(k, RSeq1(Apts, IF RE(1..8) = 1 THEN 20 ELSE 3))
              [] k = "ALTOWNER" -> Sub(k, <<"alternative">> \o RSeq1(Owners, 3))
              [] k = "GUEST" -> Sub(k, <<RE(Owners), RE(Apts \cup {"*"}), RE(Apts \cup {"*"})>>)
RSubs(n) == [i \in 1..RE(0..n) |-> SubOf(RE({"OWNER", "BORDER", "ACTIVE", "DEPAPT", "ARRAPT", "ALTOWNER", "GUEST"}))]
RSector(z) == [n |-> RE(SecNames), lo |-> RE({0, 1, 100, 10500}), hi |-> RE({10500, 66000, 100, 1, 999999999}), subs |-> RSubs(IF RE(1..6) = 1 THEN 16 ELSE 6)]
\* for borders and grouping: few owners and conditions, so that groups form
GSector(bs) == [n |-> RE(SecNames \cup {"C1", "C2"}), lo |-> RE({0, 10500, 66000}), hi |-> RE({0, 10500, 66000}),
   subs |-> <<Sub("OWNER", RE({<<"ALB">>, <<"ALB", "EGG">>, <<"EGG", "ALB">>, <<"alb">>, <<"ALB", "ALB">>, <<"ALB", "EGG", "ALB">>})), Sub("BORDER", bs)>>
            \o (IF RE(1..2) = 1 THEN <<>> ELSE <<Sub("ACTIVE", RE({<<"EDDM", "08L">>, <<"EDDM", "26R">>}))>>)
            \o (IF RE(1..3) > 1 THEN <<>> ELSE <<Sub("ACTIVE", RE({<<"EDDM", "08L">>, <<"EDDN", "08L">>}))>>)
            \o (IF RE(1..2) = 1 THEN <<>> ELSE <<Sub("DEPAPT", RSeq1(Apts, 2))>>)
            \o (IF RE(1..2) = 1 THEN <<>> ELSE <<Sub("ARRAPT", RSeq1(Apts, 2))>>)]
RPos(z) == [id |-> RE({"ALB", "EGG", "alb", "M^G", "1"}), name |-> RE({"EDMM_ALB_CTR", "EDDM_TWR", "A B"}), call |-> RE({"M^nchen Radar", "X~Y", ""}),
         freq |-> RE({"129.100", "121.5", "133", "118.025", "199.998", "000.000"}), mid |-> RE({"A", "", "ALB", "A B"}), pre |-> RE({"EDMM", "ED DM", ""}), suf |-> RE({"CTR", "TWR", "APP", ""}),
         sq |-> RE({<<>>, <<>>, <<4601, 4677>>, <<0, 7>>, <<1000, 1000>>, <<0, 0>>, <<7000, 1>>, <<7777, 7777>>}), vis |-> RSeq(Pts, 4)]
RCop(z) == [fir |-> RE(BOOLEAN), prev |-> RE({"*", "EDDM", "AKANU", "", "eddm"}), deprwy |-> RE({"*", "08L", "08R"}), fix |-> RE({"*", "UPALA", "AB C", "UPALA#X"}),
         next |-> RE({"*", "EDDN", "RIDAR", "EDDM"}), arrrwy |-> RE({"*", "26R", "08L"}), exit |-> RE({"EDMM~ALB~105~135", "X", "X#Y", "X\\"}), entry |-> RE({"EDMM~FRK", "X", "Y#X", "\\#X"}),
         clb |-> RE({-1, -1, 0, 1, 9000, 34000, 999999999}), des |-> RE({-1, -1, 0, 1, 8000, 13000, 66000}), desc |-> RE({"UPALA", "^ber FL", ""})]
Wpts == {"ABCDE", "FGHIJ", "NDB", "VOR", "NOSUCH", "EDDM", "EDDM08L", "DM060", "49N012E", "X-1"}
RProc(z) == [sid |-> RE(BOOLEAN), apt |-> RE(Apts), rwy |-> RE({"", "08L", "26R", "36"}), name |-> RE({"GIVMI1N", "BETOS1A", "ROKIL1A", "GIVMI1", "givmi1n", "MAHxRNP 1", "~^"}),
          wpts |-> RSeq(Wpts, IF RE(1..6) = 1 THEN 40 ELSE 5)]
Others == {"circle", "display", "msaw"}
Junks == 1..6

Init == /\ sec = "" /\ seen = {} /\ pos = EmptyF /\ lines = EmptyF /\ sects = EmptyF /\ cops = <<>> /\ procs = <<>>
        /\ walk = <<>> /\ hist = <<>>

----------------------------------------------------------------------------
\* exhaustive: every order of defining, redefining and referring to border lines
ExhLines == {<<"L1", <<1,2,3>>>>, <<"L1", <<1,2>>>>, <<"L2", <<3,1>>>>, <<"L2", <<2,1>>>>, <<"L2", <<>>>>}
ExhSectors == {[n |-> n, lo |-> 0, hi |-> h, subs |-> <<Sub("BORDER", b), Sub("OWNER", <<o>>)>>] :
                  n \in {"ALB", "alb"}, h \in {100}, b \in {<<"L1","L2">>, <<"L2","L1","nosuch">>, <<"L1">>}, o \in {"ALB", "EGG"}}
ExhPos == {[id |-> id, name |-> n, call |-> "X~Y", freq |-> "121.5", mid |-> "", pre |-> "EDMM", suf |-> "CTR", sq |-> sq, vis |-> v] :
             id \in {"ALB", "alb"}, n \in {"A", "B"}, sq \in {<<>>, <<0, 7>>}, v \in {<<>>, <<1>>, <<2, 5>>, <<2, 2, 3>>, <<1, 2, 3, 4>>}}
ExhProc == {[sid |-> s, apt |-> a, rwy |-> r, name |-> "GIVMI1N", wpts |-> w] :
             s \in BOOLEAN, a \in {"EDDM", "EDDN"}, r \in {"", "08L"}, w \in {<<>>, <<"ABCDE">>, <<"NOSUCH", "FGHIJ", "ABCDE">>}}
ACop(f, p, c, d, x) == [fir |-> f, prev |-> p, deprwy |-> "*", fix |-> "UPALA", next |-> "*", arrrwy |-> "*", exit |-> x[1], entry |-> x[2], clb |-> c, des |-> d, desc |-> ""]
ExhCop == {ACop(f, p, c, d, <<"X", "Y">>) : f \in BOOLEAN, p \in {"*", "EDDM"}, c \in {-1, 0, 9000}, d \in {-1, 0, 8000}}
          \cup {ACop(FALSE, "EDDM", c, 8000, x) : c \in {-1, 0}, x \in {<<"X#Y", "Z">>, <<"X", "Y#Z">>}}
NextExh == CASE Focus = "space" -> \/ sec # "AIRSPACE" /\ Section("AIRSPACE")
                                   \/ \E x \in ExhLines : Line(x[1], x[2], <<>>)
                                   \/ \E r \in ExhSectors : Sector(r)
                                   \/ Other("display")
                                   \/ sec = "AIRSPACE" /\ Section("FREETEXT")
             [] Focus = "pos" -> Section("POSITIONS") \/ \E p \in ExhPos : Position(p)
             [] Focus = "proc" -> Section("SIDSSTARS") \/ \E p \in ExhProc : Proc(p)
             [] Focus = "cop" -> Section("AIRSPACE") \/ \E c \in ExhCop : Cop(c)

\* simulation
Pick(s) == s[RE(1..Len(s))]
\* continue the border being drawn: a line from its current end over 1..2 points, or back to its start
DrawLine == \E n \in R1(LineNames), d \in R1(1..10) :
   IF walk = <<>> \/ d = 1 THEN \E a \in R1(Pts), b \in R1(Pts), c \in R1(Pts) : Line(n, <<a, b, c>>, <<a, c>>)
   ELSE IF d <= 5 THEN \E a \in R1(Pts) : IF d % 2 = 0 THEN Line(n, <<walk[2], a, walk[1]>>, <<>>) ELSE Line(n, <<walk[1], walk[2]>>, <<>>)
   ELSE \E a \in R1(Pts), b \in R1(Pts) : IF d % 2 = 0 THEN Line(n, <<walk[2], a, b>>, <<walk[1], b>>) ELSE Line(n, <<b, a, walk[2]>>, <<walk[1], b>>)
\* a border from the lines that exist, most often all of one closed loop
RBorder == LET ns == DOMAIN lines IN
   IF ns = {} THEN <<"L1", "L2">> ELSE
   LET S == UNION {{SetToSeq(T)} : T \in {U \in SUBSET ns : U # {}}}
       good == {b \in S : Closable(SFlat(SMap(b, LAMBDA n : EdgesOfLine(lines[n]))))}
   IN IF good # {} /\ RE(1..4) > 1 THEN RE(good) ELSE RE(S)
Steps == CASE Focus = "space" -> <<"line", "line", "sector", "sector", "sector", "other", "cop", "sect">>
           [] Focus \in {"ring", "group"} -> <<"draw", "draw", "draw", "draw", "gsector", "gsector", "gsector">>
           [] Focus = "pos" -> <<"pos", "pos", "pos", "pos", "pos", "sect">>
           [] Focus = "proc" -> <<"proc", "proc", "proc", "proc", "sect">>
           [] Focus = "cop" -> <<"cop", "cop", "cop", "cop", "other", "line">>
           [] OTHER -> <<"line", "sector", "gsector", "draw", "other", "cop", "cop", "pos", "pos", "proc", "proc", "sect", "sect", "sect", "junk">>
Home(k) == IF k = "pos" THEN "POSITIONS" ELSE IF k = "proc" THEN "SIDSSTARS" ELSE "AIRSPACE"
Fits(k) == IF k = "junk" THEN sec \in {"FREETEXT", "RADAR", "GROUND"} ELSE sec = Home(k)
Past(k) == SMap(SelectSeq(hist, LAMBDA h : h.op = k), LAMBDA h : h.r)
DoStep(k) ==
  CASE k = "line" -> \E n \in R1(MoreNames), ps \in {RSeq(Pts, IF RE(1..8) = 1 THEN 40 ELSE 4)} : Line(n, ps, walk)
    [] k = "draw" -> DrawLine
    [] k = "sector" -> \E q \in {RSector(0)} : \E r \in TwinOf(Past("sector"), q) : Sector(r)
    [] k = "gsector" -> \E b \in {RBorder} : \E q \in {GSector(b)} : \E r \in TwinOf(Past("sector"), q) : Sector(r)
    [] k = "other" -> \E o \in R1(Others) : Other(o)
    [] k = "cop" -> \E q \in {RCop(0)} : \E r \in TwinOf(Past("cop"), q) : Cop(r)
    [] k = "pos" -> \E q \in {RPos(0)} : \E r \in TwinOf(Past("pos"), q) : Position(r)
    [] k = "proc" -> \E q \in {RProc(0)} : \E r \in TwinOf(Past("proc"), q) : Proc(r)
    [] k = "junk" -> \E j \in R1(Junks) : Junk(j)
NextSim == \E i \in R1(1..Len(Steps)), j \in R1(Junks), m \in R1(1..3) :
   LET k == Steps[i] IN
   IF k # "sect" /\ Fits(k) THEN DoStep(k)
   ELSE IF sec \in {"FREETEXT", "RADAR", "GROUND"} /\ j <= 3 THEN Junk(j)
   ELSE IF k # "sect" /\ k # "junk" /\ Home(k) \notin seen THEN Section(Home(k))
   ELSE IF Focus = "all" \/ sec = "" THEN Section(<<"FREETEXT", "RADAR", "GROUND">>[m])
   ELSE IF sec = "AIRSPACE" THEN Other("display")
   ELSE IF sec = "POSITIONS" THEN \E r \in {RPos(0)} : Position(r)
   ELSE IF sec = "SIDSSTARS" THEN \E r \in {RProc(0)} : Proc(r)
   ELSE Junk(j)
\* many sectors of few owners within one border, each with airports of its own
NextMany == CASE sec # "AIRSPACE" -> Section("AIRSPACE")
              [] lines = EmptyF -> Line("L1", <<1, 2, 3, 1>>, <<>>)
              [] OTHER -> \E n \in R1(1..60), o \in R1({<<"ALB">>, <<"ALB">>, <<"EGG", "ALB">>}), d \in R1(1..60), a \in R1(1..60), k \in R1(1..4) :
                    Sector([n |-> "S" \o ToString(n), lo |-> 0, hi |-> 66000,
                            subs |-> <<Sub("OWNER", o), Sub("BORDER", <<"L1">>)>> \o (IF k > 1 THEN <<Sub("DEPAPT", <<"D" \o ToString(d), "EDDM">>)>> ELSE <<>>)
                                     \o (IF k < 4 THEN <<Sub("ARRAPT", <<"A" \o ToString(a)>>)>> ELSE <<>>)])
Next == Len(hist) < Depth /\ CASE Mode = "exh" -> NextExh [] Mode = "many" -> NextMany [] OTHER -> NextSim
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification itself *)
SectorRecs(n) == SelectSeq(hist, LAMBDA h : h.op = "sector" /\ h.r.n = n)
LineRecs(n) == SelectSeq(hist, LAMBDA h : h.op = "line" /\ h.n = n)
\* the last record of a name counts, and its border is what the last lines of those names say
LastCounts == \A n \in DOMAIN sects : /\ sects[n] = Last(SectorRecs(n)).r
                 /\ Border(sects[n]) = SMap(SelectSeq(FirstOf(sects[n], "BORDER"), LAMBDA b : LineRecs(b) # <<>>), LAMBDA b : Last(LineRecs(b)).pts)
\* every volume in exactly one group; one group per (owners, conditions)
GroupsPartition == LET gs == Groups
                       vs == Volumes
                   IN /\ UNION gs = vs
                      /\ \A g, h \in gs : g # h => g \cap h = {}
                      /\ \A a, b \in vs : (\E g \in gs : {a, b} \subseteq g) <=> GroupKey(a) = GroupKey(b)
ConstraintsSplit == /\ \A r \in Keyed(Leveled(TRUE)) : r.clb >= 0
                    /\ \A r \in Keyed(Leveled(FALSE)) : r.clb < 0 /\ r.des >= 0
                    /\ \A dep \in BOOLEAN : \A i \in 1..Len(cops) :
                          LET r == cops[i]
                              later == {k \in i+1..Len(cops) : Key(cops[k]) = Key(r) /\ (cops[k].clb >= 0 \/ cops[k].des >= 0) /\ (cops[k].clb >= 0 <=> r.clb >= 0)}
                              same == {q \in Keyed(Leveled(dep)) : Key(q) = Key(r)}
                          IN /\ (dep <=> r.clb >= 0) /\ (r.clb >= 0 \/ r.des >= 0) /\ later = {} => same = {r}
                             /\ Cardinality(same) <= 1

(* What the adaptation has: positions without call sign and squawk range, and procedures with the waypoints that are known *)
ShowAPos(p) == [id |-> p.id, name |-> p.name, freq |-> p.freq, pre |-> p.pre, suf |-> p.suf, vis |-> p.vis]
\* name -> place, VOR before NDB before fix (see Locations.tla)
Known == ("ABCDE" :> 2) @@ ("FGHIJ" :> 4) @@ ("NDB" :> 11) @@ ("VOR" :> 1) @@ ("EDDM" :> 13) @@ ("EDDM08L" :> 14) @@ ("49N012E" :> 1)
KnownWpts(ws) == SMap(SelectSeq(ws, LAMBDA w : Has(Known, w)), LAMBDA w : <<w, Known[w]>>)
ProcKeys == {<<procs[i].sid, procs[i].apt, procs[i].name>> : i \in 1..Len(procs)}
AProcs == {[sid |-> k[1], apt |-> k[2], name |-> k[3],
            all |-> SMap(SelectSeq(procs, LAMBDA p : <<p.sid, p.apt, p.name>> = k), LAMBDA p : [rwy |-> p.rwy, wpts |-> KnownWpts(p.wpts), ok |-> TRUE])] : k \in ProcKeys}
\* every record is one procedure somewhere, with its known waypoints in order
ProcsAllThere == /\ FoldLeft(LAMBDA n, k : n + Len(k.all), 0, SetToSeq(AProcs)) = Len(procs)
                 /\ \A i \in 1..Len(procs) : \E k \in AProcs : k.apt = procs[i].apt /\ k.name = procs[i].name /\ k.sid = procs[i].sid
                       /\ \E j \in 1..Len(k.all) : k.all[j].rwy = procs[i].rwy /\ Len(k.all[j].wpts) = Cardinality({m \in 1..Len(procs[i].wpts) : Has(Known, procs[i].wpts[m])})

View == data
Sects == SetToSeq({ShowSector(sects[n]) : n \in DOMAIN sects})
Vols == SetToSeq({ShowVolume(n) : n \in Volumes})
\* what is compared, by focus
X == CASE Focus = "space" -> [sects_s |-> Sects, vols_s |-> Vols]
       [] Focus = "ring" -> [vols_s |-> Vols]
       [] Focus = "group" -> [groups_s |-> SetToSeq({ShowGroup(g) : g \in Groups}), vols_s |-> Vols]
       [] Focus = "pos" -> [pos |-> pos, apos |-> [n \in DOMAIN pos |-> ShowAPos(pos[n])]]
       [] Focus = "proc" -> [procs |-> procs, aproc_s |-> SetToSeq(AProcs)]
       [] Focus = "cop" -> [cops |-> SMap(cops, ShowCop), depc_s |-> SetToSeq({ShowCop(r) : r \in Keyed(Leveled(TRUE))}),
                              desc_s |-> SetToSeq({ShowCop(r) : r \in Keyed(Leveled(FALSE))})]
       [] OTHER -> [sects_s |-> Sects]
\* exhaustive: one case per transition; simulation: per finished file and some before
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode # "exh" /\ (Len(hist) = Depth \/ (Len(hist) > 2 /\ Len(hist) % 6 = 0))) => Case([h |-> hist, x |-> X])
=============================================================================
