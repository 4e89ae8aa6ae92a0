---------------------------- MODULE LocationsTrace ----------------------------
(* Recorded use of the places an adaptation knows, with names of the recorder's own  *)
(* making. How a name can be read - as a runway, a coordinate, a bearing and distance - *)
(* is taken from its text here, letter by letter.                                      *)
EXTENDS Locations, IOUtils
VARIABLE at
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

Ch(t, i) == SubSeq(t, i, i)
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in Range(Dig)
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
DVal(c) == SelectInSeq(Dig, LAMBDA x : x = c) - 1
AllDigits(t, a, b) == \A i \in a..b : IsDigit(Ch(t, i))
DSeq(t, a, b) == [i \in 1..(b - a + 1) |-> DVal(Ch(t, a + i - 1))]
\* where the first letter of a text of digits is, 0 if there is none
FirstLetter(t) == LET S == {i \in 1..Len(t) : ~IsDigit(Ch(t, i))} IN IF S = {} THEN 0 ELSE Min(S)
AsRunway(t) == IF Len(t) < 4 THEN EmptyF ELSE [apt |-> SubSeq(t, 1, 4), des |-> SubSeq(t, 5, Len(t))]
AsCoord(t) == LET k == FirstLetter(t)  n == Len(t) IN
              IF k = 0 \/ k = n \/ IsDigit(Ch(t, n)) \/ ~AllDigits(t, k + 1, n - 1) THEN EmptyF
              ELSE [lat |-> DSeq(t, 1, k - 1), ns |-> Ch(t, k), lng |-> DSeq(t, k + 1, n - 1), ew |-> Ch(t, n)]
AsBearing(t) == LET n == Len(t) IN
                IF n \notin 8..11 \/ ~AllDigits(t, n - 5, n) \/ \E i \in 1..n - 6 : ~IsDigit(Ch(t, i)) /\ Ch(t, i) \notin Upper THEN EmptyF
                ELSE [base |-> SubSeq(t, 1, n - 6), brg |-> Num(DSeq(t, n - 5, n - 3)), rng |-> Num(DSeq(t, n - 2, n))]
W(t) == [t |-> t] @@ AsRunway(t) @@ AsCoord(t) @@ AsBearing(t)
\* (each way of reading is derived from the text exactly as the queries of Locations are made)
ReadsQueries == at % 97 = 5 => \A w \in Queries : Resolve(W(w.t)) = Resolve(w)

Right(r, e) == IF e = None THEN r = <<>>
               ELSE /\ Len(r) = 1 /\ r[1].d = e[1].d
                    /\ CASE "p" \in DOMAIN e[1] -> r[1].p = e[1].p
                         [] "from" \in DOMAIN e[1] -> e[1].from \in Range(r[1].from)
                         [] OTHER -> r[1].lat = e[1].lat /\ r[1].lng = e[1].lng
Fresh == vors' = EmptyF /\ ndbs' = EmptyF /\ fixes' = EmptyF /\ apts' = EmptyF /\ rwys' = <<>> /\ navd' = EmptyF /\ icao' = EmptyF /\ hist' = <<>>
TInit == Init /\ at = 0
TNext == /\ at < Len(Trace) /\ at' = at + 1
         /\ LET r == Trace[at + 1] IN
            \/ r.op = "new" /\ Fresh
            \/ r.op = "vor" /\ AddVor(r.n, r.p)
            \/ r.op = "ndb" /\ AddNdb(r.n, r.p)
            \/ r.op = "fix" /\ AddFix(r.n, r.p)
            \/ r.op = "apt" /\ AddApt(r.n, r.p)
            \/ r.op = "nav" /\ AddNav(r.n, r.p, r.name)
            \/ r.op = "rwy" /\ AddRwy(r.r)
            \/ r.op = "icao" /\ AddIcao(r.n, r.name, r.country)
            \* (each focus judges its own observations)
            \/ r.op = "query" /\ UNCHANGED vars
               /\ (Focus = "names" => Right(r.r, Resolve(W(r.t))))
               /\ (Focus = "member" => r.known = Known(W(r.t)) /\ r.at = (r.p \in Places(r.t)))
            \/ r.op = "member" /\ UNCHANGED vars /\ (Focus = "member" => r.at = (r.p \in Places(r.n)))
            \/ r.op = "airports" /\ UNCHANGED vars
               /\ (Focus = "airports" => /\ {a.d : a \in Range(r.all)} = AptNames
                                        /\ \A a \in Range(r.all) : a.k = a.d /\ a.r = Airport(a.d))
TSpec == TInit /\ [][TNext]_<<vars, at>>
TView == at
Accepted == TLCGet("stats").diameter = Len(Trace) + 1 \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
