------------------------------ MODULE RingBig -------------------------------
(* Borders of many points: lines are drawn along a circle of NV places, across   *)
(* it, back and forth, lifted and put down elsewhere; what is drawn is one       *)
(* closed loop or it is not (see Ring.tla for why that is all that counts).      *)
EXTENDS Util
CONSTANTS Depth, NV
VARIABLES lines,   \* finished and current line: sequences of places
          steps
vars == <<lines, steps>>
R1(S) == RandomSubset(1, S)
Base == 14                                    \* the places of the circle come after those of the table
On(k) == Base + 1 + (k % NV)
Idx(p) == p - Base - 1
Pen == Last(Last(lines))
Put2(ps) == lines' = [lines EXCEPT ![Len(lines)] = @ \o ps]

\* n places on along the circle, in either direction
Arc(n, fwd) == Put2([i \in 1..n |-> On(Idx(Pen) + NV * n + (IF fwd THEN i ELSE -i))])
Across(k) == Put2(<<On(k)>>)
\* the next line goes on where this one ends, or elsewhere
Cut == Len(Last(lines)) > 1 /\ lines' = Append(lines, <<Pen>>)
Lift(k) == Len(Last(lines)) > 1 /\ lines' = Append(lines, <<On(k)>>)
\* back to where the drawing began
Home == Put2(<<lines[1][1]>>)
Redraw(i) == Len(Last(lines)) > 1 /\ Len(lines[i]) > 1 /\ lines' = lines \o <<lines[i], <<Pen>>>>

Init == lines = <<<<On(0)>>>> /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E c \in R1(1..20), n \in R1(1..40), k \in R1(0..NV - 1) :
             CASE c <= 7 -> Arc(n, n % 4 # 0)
               [] c <= 9 -> Across(k)
               [] c <= 15 -> IF Len(Last(lines)) > 1 THEN Cut ELSE Arc(n, TRUE)
               [] c = 16 -> IF Len(Last(lines)) > 1 THEN Lift(k) ELSE Arc(n, TRUE)
               [] c = 17 -> IF Len(Last(lines)) > 1 THEN \E i \in R1({j \in 1..Len(lines) : Len(lines[j]) > 1}) : Redraw(i) ELSE Arc(n, FALSE)
               [] OTHER -> Home
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Drawn == SelectSeq(lines, LAMBDA l : Len(l) > 1)
EdgesOf(l) == [i \in 1..Len(l) - 1 |-> <<Min2(l[i], l[i+1]), Max2(l[i], l[i+1])>>]
Ends(e) == {e[1], e[2]}
Degs(es) == FoldLeft(LAMBDA d, e : LET m == [d EXCEPT ![e[1]] = @ + 1] IN [m EXCEPT ![e[2]] = @ + 1], [p \in Base + 1..Base + NV |-> 0], es)
RECURSIVE Reach(_, _)
Reach(es, S) == LET T == FoldLeft(LAMBDA A, e : IF e[1] \in A \/ e[2] \in A THEN A \cup Ends(e) ELSE A, S, es)
                IN IF T = S THEN S ELSE Reach(es, T)
Closable(es) == /\ es # <<>>
                /\ \A p \in Base + 1..Base + NV : Degs(es)[p] % 2 = 0
                /\ Reach(es, {es[1][1]}) = UNION {Ends(es[i]) : i \in 1..Len(es)}
\* drawing without lifting the pen, back to the beginning, always gives a loop; without having come back, never
Edges == SFlat(SMap(Drawn, EdgesOf))
OneStroke == \A i \in 1..Len(lines) - 1 : Last(lines[i]) = lines[i+1][1]
StrokeLaw == (OneStroke /\ Edges # <<>>) => (Closable(Edges) <=> Pen = lines[1][1])
EmitI == (steps = Depth \/ (steps > 3 /\ Pen = lines[1][1])) => Case([op |-> "big", lines |-> Drawn, ok |-> Closable(Edges)])
=============================================================================
