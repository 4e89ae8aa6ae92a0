------------------------------ MODULE RingTrace ------------------------------
(* Recorded borders: lines as the real code was given them, and the ring it made  *)
(* of them (places of a grid as 100 x + y; no ring: <<>>). The specification       *)
(* decides whether that ring is one of those the lines allow.                      *)
EXTENDS Geo, IOUtils
VARIABLE at
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

EdgesOf(l) == [i \in 1..Len(l) - 1 |-> <<Min2(l[i], l[i+1]), Max2(l[i], l[i+1])>>]
Ends(e) == {e[1], e[2]}
Used(es) == UNION {Ends(es[i]) : i \in 1..Len(es)}
Deg(es, v) == FoldLeft(LAMBDA acc, e : acc + (IF e[1] = v THEN 1 ELSE 0) + (IF e[2] = v THEN 1 ELSE 0), 0, es)
RECURSIVE Reach(_, _)
Reach(es, S) == LET T == FoldLeft(LAMBDA A, e : IF e[1] \in A \/ e[2] \in A THEN A \cup Ends(e) ELSE A, S, es)
                IN IF T = S THEN S ELSE Reach(es, T)
\* (Ring.tla shows that this is exactly when all edges can be walked as one closed loop)
Closable(es) == es # <<>> /\ (\A v \in Used(es) : Deg(es, v) % 2 = 0) /\ Reach(es, {es[1][1]}) = Used(es)
Count(es, x) == FoldLeft(LAMBDA n, e : IF e = x THEN n + 1 ELSE n, 0, es)
SameMulti(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)
XY(p) == <<p \div 100, p % 100>>
\* does it neither touch nor cross itself
Cuts(a, b, c, d) == LET s(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
                    IN s(Cross(a, b, c)) * s(Cross(a, b, d)) <= 0 /\ s(Cross(c, d, a)) * s(Cross(c, d, b)) <= 0
Simple(p) == /\ Len(p) >= 3
             /\ \A i, j \in 1..Len(p) : i < j => p[i] # p[j]
             /\ \A i, j \in 1..Len(p) : (i + 1 < j /\ ~(i = 1 /\ j = Len(p))) => ~Cuts(p[i], Nxt(p, i), p[j], Nxt(p, j))
Allowed(lines, ring) ==
  LET es == SFlat(SMap(lines, EdgesOf)) IN
  IF ~Closable(es) THEN ring = <<>>
  ELSE /\ ring # <<>> /\ ring[1] = Last(ring)
       /\ SameMulti(EdgesOf(ring), es)
       /\ LET p == SMap(Front(ring), XY) IN Simple(p) => Area2(p) >= 0
TInit == at = 0
TNext == /\ at < Len(Trace) /\ at' = at + 1
         /\ LET r == Trace[at + 1] IN r.op = "new" \/ (r.op = "border" /\ Allowed(r.lines, r.ring))
TSpec == TInit /\ [][TNext]_at
Accepted == TLCGet("stats").diameter = Len(Trace) + 1 \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
