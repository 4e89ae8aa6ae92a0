-------------------------------- MODULE Ring --------------------------------
(* Assembling the border of an airspace volume from border lines: the closed   *)
(* walk over all edges (Hierholzer), with every choice left open: the start,   *)
(* and which of the remaining edges of a vertex is taken next.                  *)
EXTENDS Util
CONSTANTS MaxEdges, NV
VARIABLES given,   \* the edges, in file order
          left,    \* edges not walked yet
          stack, ring, cur, phase
vars == <<given, left, stack, ring, cur, phase>>

V == 1..NV
E2 == {<<a, b>> \in V \X V : a <= b}              \* a = b: two equal points in a row
RECURSIVE MultiSeqs(_, _)
\* non-decreasing sequences = multisets of edges
Code(e) == e[1] * 10 + e[2]
MultiSeqs(n, lo) == IF n = 0 THEN {<<>>}
                    ELSE {<<>>} \cup UNION {{<<e>> \o r : r \in MultiSeqs(n - 1, Code(e))} : e \in {x \in E2 : Code(x) >= lo}}
Graphs == MultiSeqs(MaxEdges, 0)

Ends(e) == {e[1], e[2]}
Deg(es, v) == FoldLeft(LAMBDA acc, e : acc + (IF e[1] = v THEN 1 ELSE 0) + (IF e[2] = v THEN 1 ELSE 0), 0, es)
Used(es) == UNION {Ends(es[i]) : i \in 1..Len(es)}
RECURSIVE Grow(_, _, _)
Grow(es, S, n) == IF n = 0 THEN S ELSE Grow(es, S \cup UNION {Ends(es[i]) : i \in {j \in 1..Len(es) : Ends(es[j]) \cap S # {}}}, n - 1)
Connected(es) == \A v \in Used(es) : Grow(es, {v}, Cardinality(Used(es))) = Used(es)
\* the border exists exactly if all edges can be walked as one closed loop
Closable(es) == es # <<>> /\ (\A v \in Used(es) : Deg(es, v) % 2 = 0) /\ Connected(es)

Init == /\ given \in Graphs /\ left = given /\ stack = <<>> /\ ring = <<>> /\ cur = 0 /\ phase = "start"
Reject == /\ phase = "start" /\ (given = <<>> \/ \E v \in Used(given) : Deg(given, v) % 2 = 1)
          /\ phase' = "rejected" /\ UNCHANGED <<given, left, stack, ring, cur>>
Start(v) == /\ phase = "start" /\ given # <<>> /\ \A u \in Used(given) : Deg(given, u) % 2 = 0
            /\ v \in Used(given) /\ cur' = v /\ stack' = <<v>> /\ phase' = "walk" /\ UNCHANGED <<given, left, ring>>
Other(e, v) == IF e[1] = v THEN e[2] ELSE e[1]
Forward(i) == /\ phase = "walk" /\ stack # <<>> /\ i \in 1..Len(left) /\ cur \in Ends(left[i])
              /\ stack' = Append(stack, cur) /\ cur' = Other(left[i], cur) /\ left' = RemoveAt(left, i)
              /\ UNCHANGED <<given, ring, phase>>
Back == /\ phase = "walk" /\ stack # <<>> /\ ~\E i \in 1..Len(left) : cur \in Ends(left[i])
        /\ ring' = Append(ring, cur) /\ cur' = Last(stack) /\ stack' = Front(stack)
        /\ UNCHANGED <<given, left, phase>>
Finish == /\ phase = "walk" /\ stack = <<>>
          /\ phase' = IF Len(ring) = Len(given) + 1 THEN "done" ELSE "rejected"
          /\ UNCHANGED <<given, left, stack, ring, cur>>
Next == Reject \/ (\E v \in V : Start(v)) \/ (\E i \in 1..MaxEdges : Forward(i)) \/ Back \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Norm(e) == IF e[1] <= e[2] THEN e ELSE <<e[2], e[1]>>
RingEdges(r) == [i \in 1..Len(r) - 1 |-> Norm(<<r[i], r[i+1]>>)]
SameMulti(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
                     Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
\* whatever was chosen: accepted exactly when closable, and then every edge exactly once, closed
Right == /\ phase = "done" => Closable(given) /\ ring[1] = Last(ring) /\ SameMulti(RingEdges(ring), SMap(given, Norm))
         /\ phase = "rejected" => ~Closable(given)
Ends_ == <>(phase \in {"done", "rejected"})
\* a cut of the edges into lines for the replay: every edge its own line
EmitI == phase = "start" => Case([op |-> "edges", lines |-> SMap(given, LAMBDA e : <<e[1], e[2]>>), ok |-> Closable(given)])
=============================================================================
