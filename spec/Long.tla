--------------------------------- MODULE Long ----------------------------------
(* Files with long lists: whatever their length, every list of a file comes out    *)
(* complete, in order, and apart from the other lists of the file. The elements of   *)
(* all lists are numbered through, so a list is a sequence of runs <<from, to>>.      *)
EXTENDS Util
CONSTANTS Depth, Mode, Focus, Most
VARIABLES lists,  \* <<kind, name>> -> sequence of runs
          top,    \* elements so far
          hist
vars == <<lists, top, hist>>
View == <<lists, top>>
R1(S) == RandomSubset(1, S)

Groups == {"geo", "sids", "stars", "artcc", "artccl", "artcch"}
Names == {"A1", "B2"}
\* lists of which a file has one only
One == {"fix", "vor", "ndb", "port", "label", "pos", "cop", "fircop", "squawk", "aircraft", "airline", "icao", "navdata", "isec", "folder", "symbols", "volume", "asrfix", "asrtext", "asrgeo", "asrplug"}
Kinds == CASE Focus = "sct" -> Groups \cup {"region", "label", "fix", "vor", "ndb", "port"}
           [] Focus = "lines" -> Groups
           [] Focus = "region" -> {"region", "geo", "label"}
           [] Focus = "airspace" -> {"line", "border", "owner", "dep", "arr", "active"}
           [] Focus = "volume" -> {"volume"}
           [] Focus = "pos" -> {"pos", "cop"}
           [] Focus = "route" -> {"sidw", "starw"}
           [] Focus = "cop" -> {"cop", "fircop"}
           [] Focus = "map" -> {"coordline", "coordpoly", "mapline", "symbol", "text"}
           [] Focus = "folder" -> {"folder"}
           [] Focus = "active" -> {"own", "ownex", "online", "area", "aup", "notam", "rwyarr", "rwydep", "rules"}
           [] Focus = "symbols" -> {"symbols", "shape"}
           [] Focus = "squawk" -> {"squawk"}
           [] Focus = "lists" -> {"aircraft", "airline", "icao", "navdata", "isec"}
           [] Focus = "asr" -> {"asrfix", "asrtext", "asrgeo", "asrplug"}
           [] Focus = "awy" -> {"awy"}
Keys == {<<k, n>> : k \in Kinds \cap One, n \in {"A1"}} \cup {<<k, n>> : k \in Kinds \ One, n \in Names}
\* lists of steps rather than of places: they start with two places at least
Steps == Groups \cup {"mapline", "awy"}

Span(m, up) == IF up THEN <<top + 1, top + m>> ELSE <<top + m, top + 1>>
Piece(key, m, up) ==
  LET had == Has(lists, key)
  IN /\ key[1] \in Steps /\ ~had => m > 1
     /\ top' = top + m
     /\ lists' = Put(lists, key, IF had THEN Append(lists[key], Span(m, up)) ELSE <<Span(m, up)>>)
     /\ hist' = Append(hist, [op |-> "long", k |-> key[1], n |-> key[2], r |-> Span(m, up)])
Init == lists = EmptyF /\ top = 0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF Mode = "sim" THEN \E key \in R1(Keys), c \in R1(1..10) : \E m \in R1(IF c < 4 THEN 2..30 ELSE IF c < 7 THEN 2..300 ELSE 2..Most) : Piece(key, m, c % 3 # 0)
           ELSE \E key \in Keys, m \in 1..3, up \in BOOLEAN : Piece(key, m, up)
Spec == Init /\ [][Next]_vars

Size(l) == FoldLeft(LAMBDA a, r : a + 1 + Abs(r[1] - r[2]), 0, l)
\* every element is in one list
AllThere == FoldLeft(LAMBDA a, key : a + Size(lists[key]), 0, SetToSeq(DOMAIN lists)) = top
\* what is in a list stays there, where it is
Grow == [][\A key \in DOMAIN lists : IsPrefix(lists[key], lists'[key])]_vars
X == SetToSeq({[k |-> key[1], n |-> key[2], l |-> lists[key]] : key \in DOMAIN lists})
EmitT == IF Mode = "exh" THEN Case([f |-> Focus, h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ Len(hist) = Depth) => Case([f |-> Focus, h |-> hist, x |-> X])
=============================================================================
