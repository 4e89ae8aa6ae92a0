-------------------------------- MODULE Geo ---------------------------------
(* Exact integer plane geometry (points are <<x,y>>). *)
EXTENDS Util

Cross(a, b, p) == (b[1]-a[1])*(p[2]-a[2]) - (b[2]-a[2])*(p[1]-a[1])
OnSeg(a, b, p) == /\ Cross(a, b, p) = 0
                  /\ Min2(a[1],b[1]) <= p[1] /\ p[1] <= Max2(a[1],b[1])
                  /\ Min2(a[2],b[2]) <= p[2] /\ p[2] <= Max2(a[2],b[2])
\* ring: vertices without the repeated last one
Nxt(ring, i) == ring[IF i = Len(ring) THEN 1 ELSE i + 1]
OnBoundary(ring, p) == \E i \in 1..Len(ring) : OnSeg(ring[i], Nxt(ring, i), p)
\* does the ray from p towards +x cross edge i (half-open rule)
Crosses(ring, i, p) ==
   LET a == ring[i]  b == Nxt(ring, i)
       lo == IF a[2] <= b[2] THEN a ELSE b
       hi == IF a[2] <= b[2] THEN b ELSE a
   IN /\ lo[2] <= p[2] /\ p[2] < hi[2]
      /\ Cross(lo, hi, p) > 0        \* p strictly left of the upward edge
Inside(ring, p) == /\ Len(ring) >= 3
                   /\ ~OnBoundary(ring, p)
                   /\ Cardinality({i \in 1..Len(ring) : Crosses(ring, i, p)}) % 2 = 1
MinX(s) == Min({s[i][1] : i \in 1..Len(s)})
MaxX(s) == Max({s[i][1] : i \in 1..Len(s)})
MinY(s) == Min({s[i][2] : i \in 1..Len(s)})
MaxY(s) == Max({s[i][2] : i \in 1..Len(s)})
BoxesMeet(s, t) == /\ s # <<>> /\ t # <<>>
                   /\ MinX(s) <= MaxX(t) /\ MinX(t) <= MaxX(s)
                   /\ MinY(s) <= MaxY(t) /\ MinY(t) <= MaxY(s)
\* twice the signed area
Area2(ring) == FoldLeft(LAMBDA acc, i : acc + ring[i][1]*Nxt(ring,i)[2] - Nxt(ring,i)[1]*ring[i][2],
                        0, [i \in 1..Len(ring) |-> i])
=============================================================================
