------------------------------- MODULE Timing --------------------------------
(* When coordination messages are sent: the times of a unit, overridden per        *)
(* partner unit and per agreement, each kind of time on its own.                    *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES glob,   \* kind of time -> seconds; with "lam", how long an answer may take
          firs,   \* partner -> (kind of time -> seconds, where given)
          hist
vars == <<glob, firs, hist>>
View == <<glob, firs>>
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

Kinds == {"act", "abi", "rev"}
Secs == IF Mode = "exh" THEN {0, 600} ELSE {0, 1, 60, 300, 600, 900, 1800, 86400}
Firs == IF Mode = "exh" THEN {"EDMM", "EDMMX"} ELSE {"EDMM", "EDMMX", "edmm", "LOVV", "", "*"}
\* what nobody set
Built == [act |-> 900, abi |-> 1800, rev |-> 300, lam |-> 5]

SetGlob(k, v) == glob' = [glob EXCEPT ![k] = v] /\ UNCHANGED firs /\ Log([op |-> "glob", k |-> k, v |-> v])
\* an override gives some kinds of time; a later one for the same partner replaces all of it
SetFir(f, t) == firs' = Put(firs, f, t) /\ UNCHANGED glob /\ Log([op |-> "fir", f |-> f, t |-> t])
DelFir(f) == Has(firs, f) /\ firs' = Drop(firs, f) /\ UNCHANGED glob /\ Log([op |-> "del", f |-> f])
\* merged onto what is there, kind by kind
Merge(f, t) == /\ firs' = Put(firs, f, IF Has(firs, f) THEN t @@ firs[f] ELSE t) /\ UNCHANGED glob /\ Log([op |-> "merge", f |-> f, t |-> t])
\* saved and loaded again
Reload(how) == UNCHANGED <<glob, firs>> /\ Log([op |-> "reload", how |-> how])

----------------------------------------------------------------------------
\* the most specific that says something about this kind of time
Of(k, f, c) == IF Has(c, k) THEN c[k] ELSE IF f # <<>> /\ Has(firs, f[1]) /\ Has(firs[f[1]], k) THEN firs[f[1]][k] ELSE glob[k]
Resolve(f, c) == [k \in Kinds |-> Of(k, f, c)]

Timings == UNION {[S -> Secs] : S \in SUBSET Kinds}
Asked == {<<>>} \cup {<<f>> : f \in Firs} \cup {<<"nobody">>}
Cs == {[x \in {} |-> 0], "act" :> 77, "abi" :> 78, "rev" :> 79, ("act" :> 0) @@ ("rev" :> 1), ("act" :> 1) @@ ("abi" :> 2) @@ ("rev" :> 3)}
Init == glob = Built /\ firs = EmptyF /\ hist = <<>>
Ways == {"json", "overlay"}
NextExh == \/ \E k \in Kinds \cup {"lam"} : SetGlob(k, 600)
           \/ \E f \in Firs, t \in Timings : SetFir(f, t)
           \/ \E f \in Firs : DelFir(f)
           \/ \E f \in Firs, t \in Timings : Merge(f, t)
           \/ \E h \in Ways : Reload(h)
NextSim == \E n \in R1(1..10), f \in R1(Firs) : \E S \in R1(SUBSET Kinds) : \E t \in R1([S -> Secs]), k \in R1(Kinds \cup {"lam"}), v \in R1(Secs), h \in R1(Ways) :
           CASE n \in {1, 2} -> SetGlob(k, v) [] n \in 3..5 -> SetFir(f, t) [] n \in {6, 7} -> Merge(f, t) [] n = 8 /\ Has(firs, f) -> DelFir(f) [] OTHER -> Reload(h)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* an agreement's own time always holds
OwnHolds == \A c \in Cs, f \in Asked : \A k \in DOMAIN c : Resolve(f, c)[k] = c[k]
\* partners without override, or none, get the unit's times
Others == \A f \in Asked : (f = <<>> \/ ~Has(firs, f[1])) => \A k \in Kinds : Resolve(f, EmptyF)[k] = glob[k]
\* a step about one partner or kind of time leaves the others alone
Apart == [][/\ \A f \in Firs : (firs' # firs /\ (Has(firs, f) = (f \in DOMAIN firs')) /\ (Has(firs, f) => firs'[f] = firs[f])) => Resolve(<<f>>, EmptyF)' = Resolve(<<f>>, EmptyF)
            \* only a setting of its own changes a general time
            /\ \A k \in Kinds \cup {"lam"} : glob'[k] # glob[k] => Last(hist').op = "glob" /\ Last(hist').k = k
            /\ \A k \in Kinds : (glob'[k] = glob[k] /\ firs' = firs) => \A f \in Asked : Of(k, f, EmptyF)' = Of(k, f, EmptyF)]_vars

Q == SetToSeq({[f |-> f, c |-> c, r |-> Resolve(f, c)] : f \in Asked, c \in Cs})
EmitT == IF Mode = "exh" THEN Case([h |-> hist', q |-> Q', g |-> glob']) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ (Len(hist) = Depth \/ Len(hist) % 5 = 0)) => Case([h |-> hist, q |-> Q, g |-> glob])
=============================================================================
