------------------------------- MODULE Squawks -------------------------------
(* Special-use transponder codes: a list of single codes and ranges, in octal.     *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES codes,  \* code (a number) -> message
          hist
vars == <<codes, hist>>
View == codes
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

\* octal: four digits, more only where needed
RECURSIVE Oct(_)
Oct(n) == IF n < 8 THEN ToString(n) ELSE Oct(n \div 8) \o ToString(n % 8)
Four(n) == LET t == Oct(n) IN SubSeq("0000", 1, 4 - Min2(4, Len(t))) \o t
\* a code is written with or without leading zeros
Written(n) == {Oct(n), Four(n)} \cup (IF n < 512 THEN {"0" \o Oct(n)} ELSE {})

Give(ns, m) == codes' = [n \in DOMAIN codes \cup ns |-> IF n \in ns THEN m ELSE codes[n]]
One(n, t, m) == Give({n}, m) /\ Log([op |-> "one", t |-> t, m |-> m])
\* from the first to the last, both included; nothing if they are the wrong way round
Span(a, z, ta, tz, m) == Give(a..z, m) /\ Log([op |-> "span", a |-> ta, z |-> tz, m |-> m])
\* neither or both forms, or no octal numbers: no code
Neither(m) == UNCHANGED codes /\ Log([op |-> "neither", m |-> m])
Both(n, m) == UNCHANGED codes /\ Log([op |-> "both", t |-> Four(n), a |-> Four(n), z |-> Four(n + 1), m |-> m])
BadOne(t, m) == UNCHANGED codes /\ Log([op |-> "one", t |-> t, m |-> m])
BadSpan(ta, tz, m) == UNCHANGED codes /\ Log([op |-> "span", a |-> ta, z |-> tz, m |-> m])

NotOctal == {"", "7800", "12a4", "9", "x", "-1", "0008", " 7000", "7000 ", "777777777"}
Msgs == {"HIJACK", "VFR", "", "a \"b\" ^", "Military exercise and formation flights, Bavaria", "1000", "7000"}
Some == {0, 1, 7, 8, 63, 64, 511, 512, 513, 1024, 3584, 3968, 4031, 4032, 4094, 4095}
Init == codes = EmptyF /\ hist = <<>>
NextExh == \/ \E n \in {0, 8, 63, 64} : \E t \in Written(n) : One(n, t, "A")
           \/ \E a \in {0, 7, 62, 64}, z \in {0, 8, 63, 65} : Span(a, z, Four(a), Oct(z), "B")
           \/ Neither("C") \/ Both(8, "D")
           \/ \E t \in NotOctal : BadOne(t, "E") \/ BadSpan(t, "0010", "F") \/ BadSpan("0000", t, "G")
NextSim == \E k \in R1(1..10), n \in R1(R1(Some) \cup R1(0..4095)), m \in R1(Msgs), x \in R1(NotOctal), d \in R1({0, 1, 5, 8, 9, 20, 64, 65} \cup R1({2, 3, 4, 6, 7, 100, 511, 4095})) :
           LET z == Min2(4095, n + d) IN
           \E t \in R1(Written(n)), tz \in R1(Written(z)) :
           CASE k \in 1..3 -> One(n, t, m) [] k \in 4..6 -> Span(n, z, t, tz, m)
             [] k = 7 -> (IF n < z THEN Span(z, n, tz, t, m) ELSE Neither(m)) [] k = 8 -> Both(n, m) [] k = 9 -> BadOne(x, m)
             [] OTHER -> IF d < 6 THEN BadSpan(x, tz, m) ELSE BadSpan(t, x, m)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* distinct codes are written differently, and all of four digits
Distinct == /\ \A a \in DOMAIN codes : Len(Four(a)) = 4
            /\ Cardinality({Four(a) : a \in DOMAIN codes}) = Cardinality(DOMAIN codes)
\* no step takes a code away, and codes a step does not name keep their message
Only == [][DOMAIN codes \subseteq DOMAIN codes']_vars
X == SetToSeq({<<Four(n), codes[n]>> : n \in DOMAIN codes})
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x_s |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ (Len(hist) = Depth \/ Len(hist) % 4 = 0)) => Case([h |-> hist, x_s |-> X])
=============================================================================
