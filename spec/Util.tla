-------------------------------- MODULE Util --------------------------------
(* Helpers shared by every specification in this directory. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt, FiniteSetsExt, Functions

\* One emitted conformance case; the driver picks these lines out of TLC's
\* standard output and replays them into the implementation.
Case(rec) == PrintT("@" \o ToJson(rec))

Abs(x)    == IF x < 0 THEN -x ELSE x
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a > b THEN a ELSE b

\* map an operator over a sequence
SMap(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
\* keep the elements of a sequence satisfying a test
SFilter(s, T(_)) == SelectSeq(s, T)
\* concatenate a sequence of sequences
SFlat(s) == FlattenSeq(s)
\* f extended / overwritten at k
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k)    == k \in DOMAIN f
EmptyF == [x \in {} |-> 0]
\* the last element of s satisfying T, or d
LastOr(s, T(_), d) == LET c == SelectSeq(s, T) IN IF c = <<>> THEN d ELSE c[Len(c)]
FirstOr(s, T(_), d) == LET c == SelectSeq(s, T) IN IF c = <<>> THEN d ELSE c[1]
\* first occurrence of each element is kept
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(Front(s)) IN IF Contains(r, Last(s)) THEN r ELSE Append(r, Last(s))
\* (generation) a record r, or an earlier one of ss again, with one field taken from r or as it was
TwinOf(ss, r) == IF ss = <<>> THEN {r} ELSE
   UNION {IF k <= 3 THEN {r}
          ELSE {IF k = 6 THEN ss[o] ELSE [ss[o] EXCEPT ![f] = r[f]] : o \in RandomSubset(1, 1..Len(ss)), f \in RandomSubset(1, DOMAIN r)} : k \in RandomSubset(1, 1..6)}
\* function -> sequence of <<key,value>> (order irrelevant)
Pairs(f) == SetToSeq({<<k, f[k]>> : k \in DOMAIN f})
=============================================================================
