-------------------------------- MODULE Lists --------------------------------
(* The reference lists: aircraft types, airlines, airports (two lists) and fixes.  *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus   \* Focus: which list

VARIABLES recs,   \* the records of the file, in order
          hist
vars == <<recs, hist>>
View == recs
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

Rec(r) == recs' = Append(recs, r) /\ Log([op |-> "rec", r |-> r])
\* comments, empty lines and (aircraft types) names that run on are no records
Junk(t) == UNCHANGED recs /\ Log([op |-> "junk", t |-> t])

Wtc == "L" :> "LIGHT" @@ "M" :> "MEDIUM" @@ "H" :> "HEAVY" @@ "J" :> "SUPER" @@ "-" :> "UNKNOWN"
Kind == "L" :> "LANDPLANE" @@ "S" :> "SEAPLANE" @@ "A" :> "AMPHIBIAN" @@ "G" :> "GYROCOPTER" @@ "H" :> "HELICOPTER" @@ "T" :> "TILTROTOR" @@ "-" :> "UNKNOWN"
Engine == "P" :> "PISTON" @@ "T" :> "TURBOPROP" @@ "J" :> "JET" @@ "E" :> "ELECTRIC" @@ "R" :> "ROCKET" @@ "-" :> "UNKNOWN"
\* coupled or unknown engines count as none
Number == "C" :> 0 @@ "-" :> 0 @@ [x \in {ToString(i) : i \in 0..9} |-> CHOOSE i \in 0..9 : ToString(i) = x]
Types == {"A320", "C172", "B7", "7", "ZZZZ", "U^", "a320", "A32"}
Words == {"AIRBUS", "A-320, neo", "x ^ y", "(a) b/c", "1", "EC 145 ; T2", "X//Y", "L2J", "a name of more than forty characters, as some have (really)", "'Q' \"R\" ~ ^^"}
WordsE == Words \cup {""}
Lines == {"AAA", "DLH", "BAW", "ZZZ", "DLA", "AAB"}
Ports == {"EDDM", "LOWI", "K1", "1234", "X^", "eddm", "EDDMX", "EDD"}
Fixes == {"RTT", "ARMUT", "8900E", "ERNAS", "15", "ARM"}

Aircraft(d, w, k, n, e, m, x) == [d |-> d, w |-> w, k |-> k, n |-> n, e |-> e, m |-> m, x |-> x]
RRec(z) == CASE Focus = "aircraft" -> Aircraft(RE(Types), RE(DOMAIN Wtc), RE(DOMAIN Kind), RE(DOMAIN Number), RE(DOMAIN Engine), RE(WordsE), RE(WordsE))
             [] Focus = "airlines" -> [d |-> RE(Lines), n |-> RE(WordsE), c |-> RE(WordsE), l |-> RE(WordsE)]
             [] Focus = "airports" -> [d |-> RE(Ports), n |-> RE(WordsE), c |-> RE(WordsE)]
             [] Focus = "navdata" -> [d |-> RE(Ports), p |-> RE(1..14), n |-> RE(Words)]
             [] Focus = "isec" -> [d |-> RE(Fixes), p |-> RE(1..14)]
SRecs == CASE Focus = "aircraft" -> {Aircraft(d, w, k, n, e, "M", x) : d \in {"A320", "B7"}, w \in {"L", "-"}, k \in {"L"}, n \in {"2"}, e \in {"J"}, x \in {"N"}}
                \cup {Aircraft("T", w, k, n, e, "", "x y") : w \in DOMAIN Wtc, k \in DOMAIN Kind, n \in DOMAIN Number, e \in DOMAIN Engine}
           [] Focus = "airlines" -> {[d |-> d, n |-> n, c |-> c, l |-> l] : d \in {"DLH", "BAW"}, n \in {"", "A b"}, c \in {"", "C"}, l \in {"", "L"}}
           [] Focus = "airports" -> {[d |-> d, n |-> n, c |-> c] : d \in {"EDDM", "1"}, n \in {"", "A b"}, c \in {"", "C"}}
           [] Focus = "navdata" -> {[d |-> d, p |-> p, n |-> n] : d \in {"EDDM", "1"}, p \in {1, 4}, n \in {"x", "y z"}}
           [] Focus = "isec" -> {[d |-> d, p |-> p] : d \in {"RTT", "1"}, p \in {1, 4, 10}}
Junks == {"comment", "slashes", "blank"} \cup (IF Focus = "aircraft" THEN {"more"} ELSE {})
\* lists that cannot tell a comment apart from a record in between do without
JunkOk == Focus # "isec"

Init == recs = <<>> /\ hist = <<>>
\* the many single aircraft types are enumerated first; pairs from the few
Few(r) == Focus # "aircraft" \/ r.d # "T"
NextExh == \/ \E r \in SRecs : (Len(hist) = 0 \/ Few(r)) /\ (Focus = "aircraft" /\ hist # <<>> => Few(IF recs = <<>> THEN r ELSE recs[1])) /\ Rec(r)
           \/ JunkOk /\ hist # <<>> /\ Junk("comment")
NextSim == \E k \in R1(1..8) : IF k < 3 /\ JunkOk THEN \E t \in R1(Junks) : Junk(t)
           ELSE IF k = 3 /\ recs # <<>> THEN \E i \in R1(1..Len(recs)) : \E r \in {RRec(0)} : Rec([r EXCEPT !.d = recs[i].d])
           ELSE \E q \in {RRec(0)} : \E r \in TwinOf(recs, q) : Rec(r)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the first record of a key counts; of fixes all do, in order
Keys == {recs[i].d : i \in 1..Len(recs)}
FirstOf(k) == FirstOr(recs, LAMBDA r : r.d = k, 0)
Meaning(r) == IF Focus = "aircraft" THEN [d |-> r.d, w |-> Wtc[r.w], k |-> Kind[r.k], n |-> Number[r.n], e |-> Engine[r.e], m |-> r.m, x |-> r.x] ELSE r
X == IF Focus = "isec" THEN SetToSeq({[d |-> k, ps |-> SMap(SelectSeq(recs, LAMBDA r : r.d = k), LAMBDA r : r.p)] : k \in Keys})
     ELSE SetToSeq({Meaning(FirstOf(k)) : k \in Keys})
FirstStays == [][\A i \in 1..Len(recs) : FirstOf(recs[i].d)' = FirstOf(recs[i].d)]_vars
OnePerKey == \A k \in Keys : Cardinality({i \in 1..Len(recs) : recs[i] = FirstOf(k)}) >= 1
EmitT == IF Mode = "exh" /\ recs' # <<>> THEN Case([f |-> Focus, h |-> hist', x_s |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ recs # <<>> /\ (Len(hist) = Depth \/ Len(hist) % 6 = 0)) => Case([f |-> Focus, h |-> hist, x_s |-> X])
=============================================================================
