----------------------------- MODULE SectorIndex ----------------------------
(* Which sector owns a point: the airspace data of an adaptation, the lazily   *)
(* built and explicitly rebuilt lookup cache, and every kind of step that can  *)
(* come between two lookups (edits, rebuild, clone, save/load, overlay).       *)
EXTENDS Geo
CONSTANTS Depth, Mode       \* Mode: "exh" | "sim" | "many"

VARIABLES secs,   \* sector id -> [prio: BOOLEAN, vs: set of volume ids]
          vols,   \* volume id -> [ring, lo, hi]
          cache,  \* <<>> (not built) or the one [secs, vols] snapshot lookups are answered from
          other,  \* <<>> or what a copy was made of (the original), to be gone back to
          hist
vars == <<secs, vols, cache, other, hist>>
data == <<secs, vols, cache, other>>

\* Ids are numbers; the harness names them so that number order = byte order of
\* the names ("A" < "A1" < "A10" < "A2" < "B" < "a").
SecIds == CASE Mode = "exh" -> 1..2 [] Mode = "sim" -> {1, 2, 3, 4, 30} [] OTHER -> 1..40
VolIds == CASE Mode = "exh" -> 1..2 [] Mode = "sim" -> 1..5 [] OTHER -> 1..40

Sq(x1,y1,x2,y2) == << <<x1,y1>>, <<x2,y1>>, <<x2,y2>>, <<x1,y2>> >>
ShapesExh == { Sq(0,0,4,4), << <<2,2>>, <<2,6>>, <<4,6>>, <<4,4>>, <<6,4>>, <<6,2>> >> }
Shapes == IF Mode = "exh" THEN ShapesExh ELSE
          ShapesExh \cup { Sq(-2,0,1,6), Sq(1,1,3,3), << <<0,0>>, <<6,2>>, <<2,6>> >>,
             << <<0,0>>, <<6,0>>, <<6,6>>, <<4,6>>, <<4,2>>, <<2,2>>, <<2,6>>, <<0,6>> >>,
             << <<6,6>>, <<-2,6>>, <<3,3>> >>, << <<3,0>>, <<6,3>>, <<3,6>>, <<0,3>> >>,
             Sq(4,0,6,4), << >>, << <<1,1>>, <<5,5>> >>, Sq(-40,-50,60,70) }
Levels == IF Mode = "exh" THEN {<<0,100>>} ELSE {<<0,100>>, <<100,200>>, <<50,150>>, <<0,200>>, <<100,100>>, <<150,50>>}
VolRec == [ring : Shapes, lv : Levels]

Points == IF Mode = "exh" THEN {<<1,1>>, <<3,3>>, <<5,3>>, <<4,3>>, <<9,9>>}
          ELSE {<<x,y>> : x \in -3..7, y \in {-1,0,1,2,3,4,5,6,7}}
\* levels of lookups are in half feet, so that both edges of a band and fractional
\* levels are visited
Lvls2 == IF Mode = "exh" THEN {0, 200} ELSE {-1, 0, 1, 99, 100, 101, 199, 200, 201, 299, 300, 399, 400, 401}
Lines == IF Mode = "exh" THEN {<< <<5,0>>, <<5,1>> >>, << <<4,4>>, <<9,9>> >>}
         ELSE {<<a,b>> : a \in {<<-3,-1>>, <<1,7>>, <<3,3>>, <<7,2>>}, b \in {<<1,1>>, <<7,7>>, <<-3,-1>>, <<3,5>>}}

Init == secs = EmptyF /\ vols = EmptyF /\ cache = <<>> /\ other = <<>> /\ hist = <<>>

Log(r) == hist' = Append(hist, r)
Now == [secs |-> secs, vols |-> vols]
InUse == IF cache = <<>> THEN Now ELSE cache[1]

----------------------------------------------------------------------------
\* What lookups answer, given the data they are answered from.
Entries(c) == {<<s, v>> \in (DOMAIN c.secs) \X (DOMAIN c.vols) :
                  c.secs[s].prio /\ v \in c.secs[s].vs}
At(c, p) == {e \in Entries(c) : Inside(c.vols[e[2]].ring, p)}
Near(c, l) == {e \in Entries(c) : BoxesMeet(c.vols[e[2]].ring, l)}
InBand(v, l2) == v.lo * 2 <= l2 /\ l2 < v.hi * 2
Owners(c, p, l2) == {e[1] : e \in {x \in At(c, p) : InBand(c.vols[x[2]], l2)}}
Find(c, p, l2) == LET o == Owners(c, p, l2) IN IF o = {} THEN 0 ELSE Min(o)

Queries(c) ==
  LET ps == IF Mode = "exh" THEN Points ELSE RandomSubset(6, Points)
      ls == IF Mode = "exh" THEN Lvls2 ELSE RandomSubset(5, Lvls2)
      ns == IF Mode = "exh" THEN Lines ELSE RandomSubset(3, Lines)
  IN [find |-> SetToSeq({<<p, l, Find(c, p, l)>> : p \in ps, l \in ls}),
      at   |-> SetToSeq({<<p, SetToSeq(At(c, p))>> : p \in ps}),
      near |-> SetToSeq({<<l, SetToSeq(Near(c, l))>> : l \in ns})]

----------------------------------------------------------------------------
SetSector(i, pr, vs) == /\ secs' = Put(secs, i, [prio |-> pr, vs |-> vs])
                        /\ Log([op |-> "setsec", id |-> i, prio |-> pr, vs |-> SetToSeq(vs)])
                        /\ UNCHANGED <<vols, cache, other>>
DelSector(i) == /\ Has(secs, i) /\ secs' = Drop(secs, i)
                /\ Log([op |-> "delsec", id |-> i]) /\ UNCHANGED <<vols, cache, other>>
SetVolume(i, r) == /\ vols' = Put(vols, i, [ring |-> r.ring, lo |-> r.lv[1], hi |-> r.lv[2]])
                   /\ Log([op |-> "setvol", id |-> i, ring |-> r.ring, lo |-> r.lv[1], hi |-> r.lv[2]])
                   /\ UNCHANGED <<secs, cache, other>>
DelVolume(i) == /\ Has(vols, i) /\ vols' = Drop(vols, i)
                /\ Log([op |-> "delvol", id |-> i]) /\ UNCHANGED <<secs, cache, other>>
\* the explicit refresh
Rebuild == /\ cache' = <<Now>> /\ Log([op |-> "rebuild"]) /\ UNCHANGED <<secs, vols, other>>
\* the first lookup builds the cache, later ones never change it
Lookup  == /\ cache' = <<InUse>> /\ Log([op |-> "lookup", q |-> Queries(InUse)]) /\ UNCHANGED <<secs, vols, other>>
\* the same lookups issued by several threads at once on one shared adaptation
ParLookup == /\ cache' = <<InUse>> /\ Log([op |-> "par", q |-> Queries(InUse)]) /\ UNCHANGED <<secs, vols, other>>
\* a copy answers like the original; the history continues on the copy, and what is done to
\* one of the two is not done to the other
CloneIt == /\ other' = <<[secs |-> secs, vols |-> vols, cache |-> cache]>> /\ Log([op |-> "clone"]) /\ UNCHANGED <<secs, vols, cache>>
Swap == /\ other # <<>> /\ secs' = other[1].secs /\ vols' = other[1].vols /\ cache' = other[1].cache
        /\ other' = <<[secs |-> secs, vols |-> vols, cache |-> cache]>> /\ Log([op |-> "swap"])
\* saving and loading carries the data, not the cache
SaveLoad == /\ cache' = <<>> /\ Log([op |-> "saveload"]) /\ UNCHANGED <<secs, vols, other>>
\* applying an (empty) overlay file leaves fresh lookups behind
Overlay == /\ cache' = <<Now>> /\ Log([op |-> "overlay"]) /\ UNCHANGED <<secs, vols, other>>
\* an empty list of overlays is no step at all
NoOverlay == /\ Log([op |-> "nooverlay"]) /\ UNCHANGED data

Pick(S) == IF Mode = "exh" THEN S ELSE RandomSubset(1, S)
Kinds == <<"setsec", "delsec", "setvol", "delvol", "rebuild", "lookup", "par", "clone", "saveload", "overlay", "nooverlay", "swap">>
\* simulation draws the kind of step first (weighted), then its arguments
Weighted == Kinds \o <<"swap", "setsec", "setsec", "setsec", "setvol", "setvol", "setvol", "rebuild", "lookup", "lookup", "lookup", "par">>
Step(k) == CASE k = "setsec" -> \E i \in Pick(SecIds), pr \in Pick(BOOLEAN), vs \in Pick(SUBSET VolIds) : SetSector(i, pr \/ i % 2 = 1, vs)
             [] k = "delsec" -> \E i \in Pick(SecIds) : DelSector(i)
             [] k = "setvol" -> \E i \in Pick(VolIds), r \in Pick(VolRec) : SetVolume(i, r)
             [] k = "delvol" -> \E i \in Pick(VolIds) : DelVolume(i)
             [] k = "rebuild" -> Rebuild   [] k = "lookup" -> Lookup  [] k = "par" -> ParLookup
             [] k = "clone" -> CloneIt     [] k = "saveload" -> SaveLoad
             [] k = "overlay" -> Overlay   [] k = "nooverlay" -> NoOverlay
             [] k = "swap" -> IF other = <<>> THEN CloneIt ELSE Swap
\* many sectors and volumes, of any form
RE(S) == RandomElement(S)
Coords == -4..12
Triangle(z) == \E a \in RandomSubset(1, Coords \X Coords), b \in RandomSubset(1, Coords \X Coords), c \in RandomSubset(1, Coords \X Coords), l \in RandomSubset(1, Levels), i \in RandomSubset(1, VolIds) :
   SetVolume(i, [ring |-> IF Cross(a, b, c) = 0 THEN Sq(a[1], a[2], a[1] + 3, a[2] + 5) ELSE <<a, b, c>>, lv |-> IF i % 2 = 0 THEN <<0, 200>> ELSE l])
ManyStep == \E n \in RandomSubset(1, 1..16) :
   IF n <= 6 \/ Len(hist) < 8 THEN Triangle(0)
   ELSE IF n <= 12 THEN \E i \in RandomSubset(1, SecIds), k \in RandomSubset(1, 1..6) : \E vs \in RandomSubset(1, {RandomSubset(k, VolIds)}) : SetSector(i, k # 3, vs)
   ELSE \E m \in RandomSubset(1, 1..Len(Kinds)) : Step(IF Kinds[m] \in {"setsec", "delvol", "delsec"} THEN "rebuild" ELSE Kinds[m])
Next == /\ Len(hist) < Depth
        /\ IF Mode = "many" THEN ManyStep ELSE IF Mode = "exh" THEN \E n \in 1..Len(Kinds) : Step(Kinds[n])
           ELSE \E n \in RandomSubset(2, 1..Len(Weighted)) : Step(Weighted[n])
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* P1: after a rebuild (or before the first lookup) an answer is right for the data as it is
FreshIsRight == (cache = <<>> \/ cache = <<Now>>) =>
   \A p \in {<<1,1>>, <<3,3>>, <<5,3>>} : \A l \in {0, 99, 200} :
      LET f == Find(InUse, p, l) IN
        /\ f = 0 <=> ~ \E s \in DOMAIN secs : secs[s].prio /\ \E v \in secs[s].vs \cap DOMAIN vols :
                        Inside(vols[v].ring, p) /\ vols[v].lo*2 <= l /\ l < vols[v].hi*2
        /\ f # 0 => \A s \in DOMAIN secs : (secs[s].prio /\ \E v \in secs[s].vs \cap DOMAIN vols :
                        Inside(vols[v].ring, p) /\ vols[v].lo*2 <= l /\ l < vols[v].hi*2) => f <= s
\* P2: every sector found at a point is a candidate of any line through the point
AtWithinNear == \A p \in {<<1,1>>, <<3,3>>, <<5,3>>} : At(InUse, p) \subseteq Near(InUse, <<p, p>>)
\* P3: only rebuild/overlay/save-load or a first lookup may move the snapshot
CacheStable == [][cache' # cache => \/ other # <<>> /\ cache' = other[1].cache
                                  \/ cache = <<>> \/ cache' = <<>> \/ cache' = <<[secs |-> secs', vols |-> vols']>>]_vars

\* one conformance case per transition (exh), or per behaviour (sim)
View == data
EmitT == IF Mode = "exh"
         THEN Case([h |-> Append(hist', [op |-> "lookup", q |-> Queries(IF cache' = <<>> THEN [secs |-> secs', vols |-> vols'] ELSE cache'[1])])])
         ELSE Len(hist') = Depth => Case([h |-> hist'])
=============================================================================
