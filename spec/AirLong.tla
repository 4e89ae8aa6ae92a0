------------------------------- MODULE AirLong -------------------------------
(* Long airways of the sector file: names of both kinds whose segments are         *)
(* recorded one after the other, thousands of them, on from the end or anew from    *)
(* somewhere else. Places are numbers; no place is ever passed twice (see Sct.tla    *)
(* for those that are), so every piece is one line from its first to its last place. *)
EXTENDS Util
CONSTANTS Depth, Mode, Most
VARIABLES lines,  \* <<section, name>> -> lines, each a sequence of runs <<from, to>> of neighbouring places
          top,    \* places passed so far
          hist
vars == <<lines, top, hist>>
View == <<lines, top>>
R1(S) == RandomSubset(1, S)
Keys == {<<s, n>> : s \in {"HIGH AIRWAY", "LOW AIRWAY"}, n \in {"L602", "B73"}}
Old(key) == IF Has(lines, key) THEN lines[key] ELSE <<>>
\* m places further, numbered upwards or downwards
Span(m, up) == IF up THEN <<top + 1, top + m>> ELSE <<top + m, top + 1>>
Piece(key, m, up, on) ==
  LET o == Old(key)
      goes == on /\ o # <<>>
  IN /\ goes \/ m > 1
     /\ top' = top + m
     /\ lines' = Put(lines, key, IF goes THEN [o EXCEPT ![Len(o)] = Append(@, Span(m, up))] ELSE Append(o, <<Span(m, up)>>))
     /\ hist' = Append(hist, [op |-> "piece", k |-> key[1], n |-> key[2], r |-> Span(m, up), from |-> IF goes THEN <<Last(Last(o))[2]>> ELSE <<>>])
Init == lines = EmptyF /\ top = 0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF Mode = "sim" THEN \E key \in R1(Keys), c \in R1(1..10) : \E m \in R1(IF c < 4 THEN 2..30 ELSE IF c < 7 THEN 2..400 ELSE 2..Most) :
                                   Piece(key, m, c % 3 # 0, c # 5)
           ELSE \E key \in Keys, m \in 1..3, up, on \in BOOLEAN : Piece(key, m, up, on)
Spec == Init /\ [][Next]_vars

Size(l) == FoldLeft(LAMBDA a, b : a + b, 0, SMap(l, LAMBDA r : 1 + Abs(r[1] - r[2])))
\* every place passed is in a line
AllThere == FoldLeft(LAMBDA a, b : a + b, 0, SFlat(SMap(SetToSeq(DOMAIN lines), LAMBDA key : SMap(lines[key], Size)))) = top
\* what is drawn is not drawn otherwise later; lines only grow at their ends
Grow == [][\A key \in DOMAIN lines : /\ Len(lines[key]) <= Len(lines'[key])
                                     /\ \A i \in 1..Len(lines[key]) : IsPrefix(lines[key][i], lines'[key][i])]_vars
X == SetToSeq({[k |-> key[1], n |-> key[2], ls |-> lines[key]] : key \in DOMAIN lines})
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ Len(hist) = Depth) => Case([h |-> hist, x |-> X])
=============================================================================
