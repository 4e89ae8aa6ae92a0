------------------------------- MODULE Airway -------------------------------
(* The airway network built from an airway file, record by record, and the     *)
(* expansion of airway segments on it.                                          *)
(* A place is <<name, position>>; the same name may exist at several positions. *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES order,   \* places in order of first mention
          edges,   \* <<place, airway>> -> sequence of [to, dir, lvl]  (lvl = -1: none stated)
          known,   \* places the sector file lists: set of <<kind, place>>
          hist
vars == <<order, edges, known, hist>>
data == <<order, edges, known>>

NONE == -1
F == IF Mode = "exh" THEN << <<"AB",1>>, <<"CD",2>>, <<"AB",3>> >>
     ELSE IF Mode = "long" THEN [i \in 1..48 |-> <<IF i % 13 = 5 THEN "AB" ELSE IF i % 17 = 3 THEN "CD" ELSE "P" \o ToString(i), i>>]
     ELSE << <<"AB",1>>, <<"CD",2>>, <<"AB",3>>, <<"EFGHI",4>>, <<"X1",5>>, <<"CD",6>>, <<"JKL",7>>, <<"MNO",8>>, <<"PQ",9>> >>
Places == Range(F)
Awys == IF Mode = "exh" THEN {"L1"} ELSE {"L1", "UZ9", "T2", "Q33", "Z"}
\* the intended course of each airway, as indices into F (simulation draws most records from it)
Course == [a \in {"L1", "UZ9", "T2", "Q33", "Z"} |->
             CASE Mode = "long" /\ a = "L1" -> [i \in 1..40 |-> i]
               [] Mode = "long" /\ a = "UZ9" -> [i \in 1..21 |-> IF i = 21 THEN 48 ELSE 49 - i]
               [] Mode = "long" -> <<40, 30, 20, 10, 45, 48>>
               [] a = "L1" -> <<1,2,4,5,7,8,9>>        \* straight
               [] a = "UZ9" -> <<2,4,7,5,2>>           \* closed
               [] a = "T2" -> <<3,4,1,6,2>>            \* same names twice on one airway
               [] a = "Q33" -> <<9,5,3>>
               [] a = "Z" -> <<8,7,6,5,4,3,2,1>>]
Lvls == IF Mode = "exh" THEN {NONE, 5} ELSE {NONE, 0, 5, 70, 245, 19500}
NoN == [to |-> <<"",0>>, dir |-> FALSE, lvl |-> NONE]     \* "no neighbour"
Nbr(p, d, l) == [to |-> p, dir |-> d, lvl |-> l]

----------------------------------------------------------------------------
(* Building the network *)
AddPlace(o, p) == IF Contains(o, p) THEN o ELSE Append(o, p)
MinLvl(a, b) == IF a = NONE THEN b ELSE IF b = NONE THEN a ELSE Min2(a, b)
PutEdge(E, p, w, e) ==
   LET k == <<p, w>>
       old == IF Has(E, k) THEN E[k] ELSE <<>>
       at == SelectInSeq(old, LAMBDA x : x.to = e.to)
   IN Put(E, k, IF at = 0 THEN Append(old, e)
                ELSE [old EXCEPT ![at] = [to |-> e.to, dir |-> @.dir \/ e.dir, lvl |-> MinLvl(@.lvl, e.lvl)]])
\* one stretch stated by a record: forwards as stated, backwards only as a link
AddStretch(E, w, p, n) == PutEdge(PutEdge(E, p, w, n), n.to, w, [to |-> p, dir |-> FALSE, lvl |-> n.lvl])
Ns(r) == SelectSeq(<<r.n1, r.n2>>, LAMBDA n : n # NoN)
AddRec(E, r) == FoldLeft(LAMBDA acc, n : AddStretch(acc, r.awy, r.p, n), E, Ns(r))
AddOrd(o, r) == FoldLeft(LAMBDA acc, n : AddPlace(AddPlace(acc, r.p), n.to), o, Ns(r))

----------------------------------------------------------------------------
(* Expanding a segment *)
EdgesOf(p, w) == IF Has(edges, <<p, w>>) THEN edges[<<p, w>>] ELSE <<>>
OnAwy(p, w) == Has(edges, <<p, w>>)
\* the first place of that name on the airway
ByName(nm, w) == FirstOr(order, LAMBDA p : p[1] = nm /\ OnAwy(p, w), <<"",0>>)
StartPlace(s, w) == IF Contains(order, s) THEN s ELSE ByName(s[1], w)
RECURSIVE Walk(_, _, _, _, _)
Walk(prev, e, end, w, n) ==      \* sequence of edges taken, or <<>> if the route is not determined
  IF n = 0 THEN <<>>
  ELSE IF e.to = end THEN <<e>>
  ELSE LET es == EdgesOf(e.to, w)
           on == SelectSeq(es, LAMBDA x : x.to # prev)
           r  == IF Len(es) \in 1..2 /\ on # <<>> THEN Walk(e.to, on[1], end, w, n - 1) ELSE <<>>
       IN IF r = <<>> THEN <<>> ELSE <<e>> \o r
IsKnown(p) == \E k \in known : k[2] = p
Show(path) == SMap(path, LAMBDA e : [n |-> e.to[1], p |-> e.to[2], dir |-> e.dir, lvl |-> e.lvl, int |-> IsKnown(e.to)])
\* all answers the network allows (two when both ways round a closed airway arrive)
Answers(s, endName, w) ==
  LET a == StartPlace(s, w)
      b == ByName(endName, w)
      es == EdgesOf(a, w)
      ok == OnAwy(a, w) /\ OnAwy(b, w) /\ Len(es) <= 2
  IN IF ~ok THEN {} ELSE {Walk(a, es[i], b, w, Len(order)) : i \in 1..Len(es)} \ {<<>>}

----------------------------------------------------------------------------
Init == order = <<>> /\ edges = EmptyF /\ known = {} /\ hist = <<>>
Record(r) == /\ edges' = AddRec(edges, r) /\ order' = AddOrd(order, r)
             /\ hist' = Append(hist, [op |-> "rec", r |-> r]) /\ UNCHANGED known
Know(k, p) == /\ known' = known \cup {<<k, p>>}
              /\ hist' = Append(hist, [op |-> "know", k |-> k, p |-> p]) /\ UNCHANGED <<order, edges>>

ExhNbrs == {Nbr(p, d, l) : p \in Places, d \in BOOLEAN, l \in Lvls}
ExhRecs == [p : Places, awy : Awys, n1 : ExhNbrs, n2 : {NoN}]
           \cup {[p |-> F[2], awy |-> "L1", n1 |-> Nbr(F[1], d, 5), n2 |-> Nbr(F[3], e, l)] : d, e \in BOOLEAN, l \in Lvls}
           \cup {[p |-> F[1], awy |-> "L1", n1 |-> NoN, n2 |-> NoN]}
RE(S) == RandomElement(S)
RN(p) == Nbr(p, RE(BOOLEAN), RE(Lvls))
\* a record as found in real files: a place on the course with the neighbours before and after it
CourseRec(w, i) == LET c == Course[w] IN
   [p |-> F[c[i]], awy |-> w,
    n1 |-> IF i > 1 /\ RE(1..12) > 1 THEN RN(F[c[i-1]]) ELSE NoN,
    n2 |-> IF i < Len(c) /\ RE(1..12) > 1 THEN RN(F[c[i+1]]) ELSE NoN]
Flip(r) == [r EXCEPT !.n1 = r.n2, !.n2 = r.n1]
RogueRec(w) == [p |-> RE(Places), awy |-> w, n1 |-> RN(RE(Places)), n2 |-> IF RE(1..3) = 1 THEN RN(RE(Places)) ELSE NoN]

Kinds == {"fix", "vor", "ndb"}
\* (each draw is bound by \E over a one-element random set, so that it is made once)
SimStep == \E d \in RandomSubset(1, 1..40), n \in RandomSubset(1, 1..6) :
           \E w \in {<<"L1", "L1", "UZ9", "T2", "Q33", "Z">>[n]} : \E i \in RandomSubset(1, 1..Len(Course[w])) :
           \E r \in {CourseRec(w, i)} :
           IF d <= 6 THEN \E k \in RandomSubset(1, Kinds), p \in RandomSubset(1, Places) : Know(k, p)
           ELSE IF d = 7 THEN \E x \in {RogueRec(w)} : Record(x)
           ELSE IF d <= 20 THEN Record(Flip(r)) ELSE Record(r)
\* a file that covers two long airways, the records in any order
Done(w) == {h.r.p : h \in {x \in Range(hist) : x.op = "rec" /\ x.r.awy = w}}
Todo(w) == {i \in 1..Len(Course[w]) : F[Course[w][i]] \notin Done(w)}
LongStep == \E d \in RandomSubset(1, 1..24), n \in RandomSubset(1, 1..6) :
            \E w \in {<<"L1", "L1", "L1", "UZ9", "UZ9", "T2">>[n]} :
            \E i \in RandomSubset(1, IF Todo(w) = {} THEN 1..Len(Course[w]) ELSE IF d % 3 = 0 THEN Todo(w) ELSE {Min(Todo(w))}) :
            \E r \in {CourseRec(w, i)} :
            IF d <= 2 THEN \E k \in RandomSubset(1, Kinds), p \in RandomSubset(1, Places) : Know(k, p)
            ELSE IF d <= 8 THEN Record(Flip(r)) ELSE Record(r)
Next == /\ Len(hist) < Depth
        /\ IF Mode = "exh" THEN (\E r \in ExhRecs : Record(r)) \/ \E p \in Places : Know("fix", p)
           ELSE IF Mode = "long" THEN LongStep ELSE SimStep
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What users rely on, stated over the records themselves *)
Recs == {h.r : h \in {x \in Range(hist) : x.op = "rec"}}
States(r, a, b) == {n \in Range(Ns(r)) : r.p = a /\ n.to = b}          \* r states a -> b
Stated(w, a, b) == UNION {States(r, a, b) : r \in {x \in Recs : x.awy = w}}
\* the network is exactly the recorded stretches, merged, whatever the order of records
NetworkIsRecords == (Mode = "exh" \/ Len(hist) = Depth) =>
  \A w \in Awys : \A a \in Places : \A b \in Places :
    LET es == {e \in Range(EdgesOf(a, w)) : e.to = b}
        both == Stated(w, a, b) \cup Stated(w, b, a)
        ls == {n.lvl : n \in both} \ {NONE}
    IN /\ (both = {} <=> es = {}) /\ Cardinality(es) <= 1
       /\ \A e \in es : /\ e.dir = \E n \in Stated(w, a, b) : n.dir
                        /\ e.lvl = IF ls = {} THEN NONE ELSE Min(ls)
\* an answer is a real route: recorded stretches end to end, no place twice, up to the end
RoutesAreReal == (Mode = "exh" \/ Len(hist) = Depth) =>
  \A s \in Places : \A w \in Awys : \A en \in {p[1] : p \in Places} : \A path \in Answers(s, en, w) :
     LET a == StartPlace(s, w)
         pl == <<a>> \o SMap(path, LAMBDA e : e.to)
     IN /\ Last(pl)[1] = en
        /\ \A i \in 1..Len(path) : Stated(w, pl[i], pl[i+1]) \cup Stated(w, pl[i+1], pl[i]) # {}
        \* (a record may name its own place as neighbour; such a link can be walked over once)
        /\ (\A p \in Places : Stated(w, p, p) = {}) => \A i, j \in 2..Len(pl) : i # j => pl[i] # pl[j]
Deg(w, a) == Cardinality({b \in Places : Stated(w, a, b) \cup Stated(w, b, a) # {}})
\* on an airway without forks, two different places joined by recorded stretches always have a route
RECURSIVE Reach(_, _, _)
Reach(w, S, n) == IF n = 0 THEN S ELSE Reach(w, S \cup {b \in Places : \E a \in S : Stated(w, a, b) \cup Stated(w, b, a) # {}}, n - 1)
RoutesAreFound == (Mode = "exh" \/ Len(hist) = Depth) =>
  \A w \in Awys : (\A p \in Places : Deg(w, p) <= 2 /\ Stated(w, p, p) = {}) =>
     \A s \in Places : \A t \in Places :
        (OnAwy(s, w) /\ t # s /\ ByName(t[1], w) = t /\ t \in Reach(w, {s}, Cardinality(Places))) => Answers(s, t[1], w) # {}

View == data
QStarts == IF Mode = "exh" THEN Places \cup {<<"CD",9>>, <<"ZZ",1>>}
           ELSE RandomSubset(7, Places \cup {<<"CD",99>>, <<"AB",98>>, <<"ZZ",1>>, <<"MNO",7>>})
QEnds == IF Mode = "long" THEN RandomSubset(12, {p[1] : p \in Places} \cup {"ZZ"}) ELSE {p[1] : p \in Places} \cup {"ZZ"}
QAwys(z) == IF Mode = "exh" THEN Awys \cup {"L99"} ELSE RandomSubset(3, Awys \cup {"L99"})
Emit == Case([h |-> hist, q |-> SetToSeq({[s |-> s, e |-> e, w |-> w, a |-> SetToSeq({Show(x) : x \in Answers(s, e, w)})] :
                                  s \in QStarts, e \in QEnds, w \in QAwys(0)})])
EmitT == TRUE
\* cases come from an invariant: one per distinct network (exh), one per finished history (sim)
EmitI == (Mode = "exh" \/ Len(hist) = Depth \/ (Len(hist) > 3 /\ Len(hist) % (IF Mode = "long" THEN 35 ELSE 5) = 0)) => (hist = <<>> \/ Emit)
=============================================================================
