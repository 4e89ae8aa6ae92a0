--------------------------------- MODULE Dms --------------------------------
(* Positions as degrees-minutes-seconds text: written, read, written again.     *)
(* A position part is <<sign, degrees, milliseconds of the degree, thousandths   *)
(* of a millisecond>>, so nothing here is rounded except by Write.               *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES pos,   \* the position part in memory
          text,  \* what was last written or read: <<>> or its fields
          axis,  \* "lat" or "lng"
          hist
vars == <<pos, text, axis, hist>>

DEG == 3600000
Part(g, d, m, u) == [g |-> g, d |-> d, m |-> m, u |-> u]
\* to whole milliseconds, carrying into minutes and degrees
Round(p) == LET m == IF p.u >= 500 THEN p.m + 1 ELSE p.m
            IN IF m = DEG THEN Part(p.g, p.d + 1, 0, 0) ELSE Part(p.g, p.d, m, 0)
Fields(p) == LET q == Round(p) IN [g |-> q.g, d |-> q.d, min |-> q.m \div 60000, sec |-> q.m \div 1000 % 60, ms |-> q.m % 1000]
Pad(n, w) == LET t == ToString(n) IN IF Len(t) >= w THEN t ELSE IF w - Len(t) = 1 THEN "0" \o t ELSE "00" \o t
Hemi(a, g) == IF a = "lat" THEN (IF g = 1 THEN "N" ELSE "S") ELSE (IF g = 1 THEN "E" ELSE "W")
Text(a, f) == Hemi(a, f.g) \o Pad(f.d, 3) \o "." \o Pad(f.min, 2) \o "." \o Pad(f.sec, 2) \o "." \o Pad(f.ms, 3)
\* what text says; minutes and seconds need not be below sixty, nor milliseconds be three digits
Value(f) == LET m == (f.min * 60 + f.sec) * 1000 + f.ms IN Part(f.g, f.d + m \div DEG, m % DEG, 0)

Log(r) == hist' = Append(hist, r)
Write == /\ text' = <<Fields(pos)>> /\ Log([op |-> "write", text |-> Text(axis, Fields(pos))]) /\ UNCHANGED <<pos, axis>>
Read == /\ text # <<>> /\ pos' = Value(text[1]) /\ Log([op |-> "read", p |-> Value(text[1])]) /\ UNCHANGED <<text, axis>>
\* text from elsewhere
Given(f) == /\ text' = <<f>> /\ pos' = Value(f) /\ Log([op |-> "given", f |-> f, p |-> Value(f)]) /\ UNCHANGED axis
Set(p) == /\ pos' = p /\ text' = <<>> /\ Log([op |-> "set", p |-> p]) /\ UNCHANGED axis

Degs == {0, 1, 9, 10, 59, 89, 90, 99, 100, 127, 128, 179, 180, 255, 256, 998}
Mins == {0, 1, 29, 59}
Secs == {0, 9, 59}
Mss == {0, 1, 499, 999}
Us == {0, 1, 499, 501, 999}   \* not the very middle, which no binary number hits
Init == /\ axis \in {"lat", "lng"} /\ text = <<>> /\ pos = Part(1, 0, 0, 0) /\ hist = <<>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
RandP(z) == Part(RE({1, 0}), IF RE(1..3) = 1 THEN RE(Degs) ELSE RE(0..180),
              (RE(0..59) * 60 + (IF RE(1..2) = 1 THEN 59 ELSE RE(0..59))) * 1000 + (IF RE(1..2) = 1 THEN 999 ELSE RE(0..999)),
              IF RE(1..2) = 1 THEN RE({499, 501, 999}) ELSE RE((0..999) \ {500}))
RandF(z) == [g |-> RE({1, 0}), d |-> RE(0..180), min |-> RE(0..99), sec |-> RE(0..99), ms |-> RE(0..999)]
NextExh == IF hist = <<>> THEN \E g \in {1, 0}, d \in Degs, m \in Mins, s \in Secs, k \in Mss, u \in Us : Set(Part(g, d, (m * 60 + s) * 1000 + k, u))
           ELSE IF Len(hist) % 2 = 1 THEN Write ELSE Read
NextSim == IF hist = <<>> \/ RE(1..4) = 1 THEN (IF RE(1..4) = 1 THEN \E f \in {RandF(0)} : Given(f) ELSE \E p \in {RandP(0)} : Set(p))
           ELSE IF text = <<>> THEN Write ELSE IF Last(hist).op = "write" THEN Read ELSE Write
Next == Len(hist) < Depth /\ IF Mode = "sim" THEN NextSim ELSE NextExh
Spec == Init /\ [][Next]_vars

\* text is in normal form
Normal == text # <<>> /\ Last(hist).op = "write" => text[1].min < 60 /\ text[1].sec < 60 /\ text[1].ms < 1000
\* and says where the position is, to half a millisecond
Off(p, q) == (p.d - q.d) * DEG + (p.m - q.m)
Close == hist # <<>> /\ Last(hist).op = "write" =>
   LET q == Value(text[1]) IN /\ Abs(Off(pos, q)) <= 1
                              /\ Abs(Off(pos, q) * 1000 + pos.u - q.u) <= 500
\* reading it and writing that changes nothing
Stable == [][(Len(hist) > 1 /\ Last(hist).op = "read" /\ hist'[Len(hist')].op = "write") => text' = text]_vars

EmitT == IF Mode = "exh" /\ Len(hist') = Depth THEN Case([a |-> axis, h |-> hist']) ELSE TRUE
EmitI == (Mode = "sim" /\ Len(hist) = Depth) => Case([a |-> axis, h |-> hist])
=============================================================================
