------------------------------ MODULE Overlay -------------------------------
(* Overlay files applied to a loaded adaptation, in one call or several: each file  *)
(* is a list of edits; a value may refer to what was there before (super) or to     *)
(* what will be there in the end (self).                                            *)
EXTENDS Geo
CONSTANTS Depth, Mode

VARIABLES doc,     \* the merged document, references to final values still open
          open,    \* are there edits of a call not yet ended
          hist
vars == <<doc, open, hist>>
View == <<doc, open>>
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

Nums == {"font", "layer", "dots", "length", "width"}
Flags == {"coopans", "vector", "dotson", "folder"}
Cols == {"geo", "sid"}
Texts == {"name", "auto"}
Sq(x1, y1, x2, y2) == << <<x1, y1>>, <<x2, y1>>, <<x2, y2>>, <<x1, y2>> >>
Ring(n) == CASE n = 1 -> Sq(0, 0, 4, 4) [] n = 2 -> Sq(2, 2, 6, 6) [] OTHER -> Sq(-2, 0, 1, 6)
N(v) == [v |-> v, ref |-> ""]

Init == /\ doc = [num |-> [font |-> N(12), layer |-> N(1), dots |-> N(6), length |-> N(2), width |-> N(1)],
                  flag |-> [coopans |-> TRUE, vector |-> FALSE, dotson |-> TRUE, folder |-> FALSE],
                  col |-> [geo |-> 66051, sid |-> 11259375],
                  poss |-> "P1" :> [freq |-> "129.100", vis |-> <<1>>],
                  styles |-> ("S1" :> <<3, 2>>) @@ ("S2" :> <<>>),
                  cons |-> "K1" :> [desc |-> "to X", clb |-> 9000, act |-> 0 - 1],
                  text |-> [name |-> "World", auto |-> "AUTO"],
                  codes |-> ("1000" :> "a") @@ ("7000" :> "V"),
                  files |-> <<"x.asr">>,
                  air |-> ("AAA" :> <<"N", "C">>) @@ ("BBB" :> <<"N", "C">>),
                  secs |-> 1 :> [prio |-> <<"P1">>, vs |-> {1}],
                  vols |-> 1 :> [ring |-> 1, lo |-> 0, hi |-> 100]]
        /\ open = FALSE /\ hist = <<>>

\* an edit: what (k, p), how (m), and with what
E(k, p, m, n, s, q, z) == [k |-> k, p |-> p, m |-> m, n |-> n, s |-> s, q |-> q, z |-> z]
NumE(p, m, n) == E("num", p, m, n, "", <<>>, <<>>)
FlagE(p, b) == E("flag", p, "set", IF b THEN 1 ELSE 0, "", <<>>, <<>>)
TextE(p, m, s) == E("text", p, m, 0, s, <<>>, <<>>)
CodeE(m, q) == E("codes", "", m, 0, "", q, <<>>)
FileE(m, q) == E("files", "", m, 0, "", q, <<>>)
AirE(m, a, q) == E("air", a, m, 0, "", q, <<>>)
VolE(m, i, r, lo, hi) == E("vol", "", m, i, "", <<>>, <<r, lo, hi>>)
SecE(m, i, prio, vs) == E("sec", "", m, i, "", prio, vs)
ColE(p, n) == E("col", p, "set", n, "", <<>>, <<>>)
PosE(m, i, f, z) == E("poss", i, m, 0, f, <<>>, z)
StyleE(m, i, z) == E("styles", i, m, 0, "", <<>>, z)
ConE(m, i, d, n) == E("cons", i, m, n, d, <<>>, <<>>)
OtherE(m) == E("other", "", m, 0, "", <<>>, <<>>)

\* what an edit needs to be there
Fits(d, e) == CASE e.k = "air" /\ e.m \in {"part"} -> Has(d.air, e.p)
                [] e.k = "vol" /\ e.m \in {"level"} -> Has(d.vols, e.n)
                [] e.k = "sec" /\ e.m \in {"vs", "addvs", "prio"} -> Has(d.secs, e.n)
                [] e.k = "poss" /\ e.m # "new" -> Has(d.poss, e.p)
                \* nothing can be added to a style that is none
                [] e.k = "styles" /\ e.m = "add" -> Has(d.styles, e.p) /\ d.styles[e.p] # <<>>
                [] e.k = "cons" /\ e.m # "new" -> Has(d.cons, e.p)
                [] OTHER -> TRUE
RECURSIVE PutAll(_, _)
PutAll(f, q) == IF q = <<>> THEN f ELSE PutAll(Put(f, q[1], q[2]), SubSeq(q, 3, Len(q)))
Edited(d, e) ==
  CASE e.k = "num" -> [d EXCEPT !.num = Put(d.num, e.p, CASE e.m = "set" -> N(e.n) [] e.m \in {"add", "super"} -> [d.num[e.p] EXCEPT !.v = @ + e.n]
                                                          \* one more than whatever the layer will be
                                                          [] OTHER -> [v |-> e.n, ref |-> "layer"])]
    [] e.k = "flag" -> [d EXCEPT !.flag = Put(d.flag, e.p, e.n = 1)]
    [] e.k = "text" -> [d EXCEPT !.text = Put(d.text, e.p, CASE e.m = "set" -> e.s [] e.m = "before" -> e.s \o d.text[e.p] [] OTHER -> d.text[e.p] \o e.s)]
    [] e.k = "codes" -> [d EXCEPT !.codes = CASE e.m = "set" -> PutAll(EmptyF, e.q) [] OTHER -> PutAll(d.codes, e.q)]
    [] e.k = "files" -> [d EXCEPT !.files = CASE e.m = "set" -> e.q [] e.m = "before" -> e.q \o @ [] OTHER -> @ \o e.q]
    [] e.k = "air" -> [d EXCEPT !.air = CASE e.m = "new" -> Put(d.air, e.p, e.q) [] e.m = "part" -> Put(d.air, e.p, <<e.q[1], d.air[e.p][2]>>)
                                          [] OTHER -> e.p :> e.q]
    [] e.k = "vol" -> LET v == [ring |-> e.z[1], lo |-> e.z[2], hi |-> e.z[3]] IN
                      [d EXCEPT !.vols = CASE e.m = "new" -> Put(d.vols, e.n, v) [] e.m = "level" -> Put(d.vols, e.n, [v EXCEPT !.ring = d.vols[e.n].ring])
                                           [] OTHER -> e.n :> v]
    [] e.k = "sec" -> LET s == [prio |-> e.q, vs |-> Range(e.z)] IN
                      [d EXCEPT !.secs = CASE e.m = "new" -> Put(d.secs, e.n, s) [] e.m = "vs" -> Put(d.secs, e.n, [d.secs[e.n] EXCEPT !.vs = s.vs])
                                           [] e.m = "addvs" -> Put(d.secs, e.n, [d.secs[e.n] EXCEPT !.vs = @ \cup s.vs])
                                           [] e.m = "prio" -> Put(d.secs, e.n, [d.secs[e.n] EXCEPT !.prio = s.prio])
                                           [] OTHER -> e.n :> s]
    [] e.k = "col" -> [d EXCEPT !.col = Put(d.col, e.p, e.n)]
    [] e.k = "poss" -> [d EXCEPT !.poss = Put(d.poss, e.p, CASE e.m = "new" -> [freq |-> e.s, vis |-> e.z] [] e.m = "freq" -> [d.poss[e.p] EXCEPT !.freq = e.s]
                                                             [] e.m = "vis" -> [d.poss[e.p] EXCEPT !.vis = e.z] [] OTHER -> [d.poss[e.p] EXCEPT !.vis = @ \o e.z])]
    [] e.k = "styles" -> [d EXCEPT !.styles = Put(d.styles, e.p, CASE e.m = "new" -> e.z [] OTHER -> d.styles[e.p] \o e.z)]
    [] e.k = "cons" -> [d EXCEPT !.cons = Put(d.cons, e.p, CASE e.m = "new" -> [desc |-> e.s, clb |-> e.n, act |-> 0 - 1] [] e.m = "desc" -> [d.cons[e.p] EXCEPT !.desc = e.s]
                                                             [] e.m = "clb" -> [d.cons[e.p] EXCEPT !.clb = e.n] [] OTHER -> [d.cons[e.p] EXCEPT !.act = e.n])]
    \* nothing at all, or fields nobody knows
    [] OTHER -> d
Resolved(d) == [d EXCEPT !.num = [p \in Nums |-> N(IF d.num[p].ref = "" THEN d.num[p].v ELSE d.num[p].v + d.num[d.num[p].ref].v)]]

Edit(e) == Fits(doc, e) /\ doc' = Edited(doc, e) /\ open' = TRUE /\ Log([op |-> "edit", e |-> e])
\* the edits so far are in one file, the following ones in another
File == open /\ Log([op |-> "file"]) /\ UNCHANGED <<doc, open>>
\* the files of the call so far
Closed(f) == IF f.cur = <<>> THEN f ELSE [done |-> Append(f.done, f.cur), cur |-> <<>>]
Files == FoldLeft(LAMBDA f, r : CASE r.op = "edit" -> [f EXCEPT !.cur = Append(@, r.e)]
                                  [] r.op = "file" -> [done |-> Append(f.done, f.cur), cur |-> <<>>]
                                  [] r.op = "again" -> LET g == Closed(f) IN [g EXCEPT !.done = Append(@, g.done[r.i])]
                                  [] r.op = "call" -> [done |-> <<>>, cur |-> <<>>]
                                  [] OTHER -> f, [done |-> <<>>, cur |-> <<>>], hist)
\* one of the files named so far is named once more, and applied once more
RECURSIVE AllFit(_, _)
AllFit(d, q) == IF q = <<>> THEN TRUE ELSE IF Fits(d, q[1]) THEN AllFit(Edited(d, q[1]), Tail(q)) ELSE FALSE
Again(i) == /\ open /\ LET f == Closed(Files).done IN i <= Len(f) /\ f[i] # <<>> /\ AllFit(doc, f[i]) /\ doc' = FoldLeft(LAMBDA d, e : Edited(d, e), doc, f[i])
            /\ UNCHANGED open /\ Log([op |-> "again", i |-> i])
EndCall == open /\ doc' = Resolved(doc) /\ open' = FALSE /\ Log([op |-> "call"])
\* a call with no overlay at all
NoCall == ~open /\ Log([op |-> "none"]) /\ UNCHANGED <<doc, open>>
\* the same edits, but with a file that cannot be applied: an error, and nothing more
Fail(k) == Log([op |-> "fail", k |-> k]) /\ UNCHANGED <<doc, open>>
SaveLoad == ~open /\ Log([op |-> "save"]) /\ UNCHANGED <<doc, open>>
Fails == {"missing", "syntax", "type", "error", "number", "list", "nosuper", "nofield", "null", "negative", "fraction", "folder", "import", "assert", "colshort", "collong", "colword", "coldigit", "stylehalf", "visnum"}

----------------------------------------------------------------------------
NumsE == {NumE(p, m, n) : p \in Nums, m \in {"set", "add", "super"}, n \in {1, 3, 20}} \cup {NumE("font", "self", n) : n \in {1, 5}}
TextsE == {TextE(p, m, s) : p \in Texts, m \in {"set", "add", "before"}, s \in {"", "A b", "^ \"q\" 'r' \\", "% $ {} ~"}}
CodesE == {CodeE(m, q) : m \in {"set", "add"}, q \in {<<>>, <<"1000", "b">>, <<"2000", "c", "7777", "d">>}}
FilesE == {FileE(m, q) : m \in {"set", "add", "before"}, q \in {<<>>, <<"y.asr">>, <<"x.asr", "a/b c.asr">>}}
AirsE == {AirE(m, a, q) : m \in {"new", "part", "set"}, a \in {"AAA", "BBB", "CCC"}, q \in {<<"N1", "C1">>, <<"", "C2">>}}
VolsE == {VolE(m, i, r, lv[1], lv[2]) : m \in {"new", "level", "set"}, i \in 1..3, r \in 1..3, lv \in {<<0, 100>>, <<100, 200>>, <<0, 50>>}}
SecsE == {SecE(m, i, pr, vs) : m \in {"new", "vs", "addvs", "prio", "set"}, i \in 1..3, pr \in {<<>>, <<"P1", "P2">>}, vs \in {<<>>, <<1>>, <<2, 3>>}}
OthersE == {OtherE(m) : m \in {"empty", "unknown", "deep", "hidden", "local"}}
ColsE == {ColE(p, n) : p \in Cols, n \in {0, 16777215, 11259375, 1715004, 255, 12648430}}
PossE == {PosE(m, i, f, z) : m \in {"new", "freq", "vis", "addvis"}, i \in {"P1", "P2"}, f \in {"118.000", "^ 1"}, z \in {<<>>, <<2>>, <<4, 5, 1>>}}
StylesE == {StyleE(m, i, z) : m \in {"new", "add"}, i \in {"S1", "S2", "S3", "DOT"}, z \in {<<4, 1>>, <<1, 2, 5, 3>>}} \cup {StyleE("new", i, <<>>) : i \in {"S1", "S3"}}
ConsE == {ConE(m, i, d, n) : m \in {"new", "desc", "clb", "act"}, i \in {"K1", "K2"}, d \in {"", "to \"Y\" ^"}, n \in {0, 13000}} \cup {ConE("clb", "K1", "", 0 - 1), ConE("act", "K1", "", 0 - 1)}
FlagsE == {FlagE(p, b) : p \in Flags, b \in BOOLEAN}
ExhE == {NumE("font", "set", 3), NumE("font", "add", 1), NumE("layer", "super", 3), NumE("font", "self", 1), NumE("layer", "set", 20), NumE("dots", "set", 1), NumE("width", "add", 20),
         FlagE("coopans", FALSE), FlagE("vector", TRUE), TextE("name", "set", "A b"), TextE("name", "add", "x"), TextE("auto", "set", "A b"),
         CodeE("set", <<"2000", "c">>), CodeE("add", <<"1000", "b">>), FileE("set", <<>>), FileE("add", <<"y.asr">>), FileE("before", <<"z.asr">>),
         AirE("new", "CCC", <<"N1", "C1">>), AirE("part", "AAA", <<"N2", "">>), AirE("set", "DDD", <<"N", "C">>),
         VolE("new", 2, 2, 0, 50), VolE("level", 1, 1, 100, 200), VolE("set", 3, 3, 0, 100),
         ColE("geo", 11259375), ColE("sid", 12648430), PosE("new", "P2", "118.000", <<2, 3>>), PosE("freq", "P1", "^ 1", <<>>), PosE("addvis", "P1", "", <<4>>), PosE("vis", "P1", "", <<>>),
         StyleE("new", "S1", <<>>), StyleE("add", "S1", <<1, 5>>), StyleE("new", "DOT", <<2, 7>>), ConE("new", "K2", "x", 0), ConE("clb", "K1", "", 0 - 1), ConE("act", "K1", "", 13000), ConE("desc", "K1", "y", 0),
         SecE("new", 2, <<"P2">>, <<1, 2, 3>>), SecE("vs", 1, <<>>, <<2, 3>>), SecE("addvs", 1, <<>>, <<3>>), SecE("prio", 1, <<>>, <<>>), SecE("set", 3, <<"P3">>, <<1>>)}
        \cup OthersE
NextExh == \/ \E e \in ExhE : Edit(e)
           \/ (hist # <<>> /\ hist[Len(hist)].op = "edit" /\ (File \/ EndCall \/ Again(1)))
           \/ (Len(hist) <= 1 /\ \E k \in Fails : Fail(k))
           \/ (hist = <<>> /\ (SaveLoad \/ NoCall))
Fitting(S) == {e \in S : Fits(doc, e)}
Some(S) == \E e \in R1(Fitting(S)) : Edit(e)
NextSim == \E k \in R1(1..30) :
             \/ k <= 3 /\ Some(NumsE)
             \/ k = 4 /\ Some(FlagsE)
             \/ k \in {5, 6} /\ Some(TextsE)
             \/ k \in {7, 8} /\ Some(CodesE)
             \/ k = 9 /\ Some(FilesE)
             \/ k \in {10, 11} /\ Some(AirsE)
             \/ k \in 12..14 /\ Some(VolsE)
             \/ k \in 15..17 /\ Some(SecsE)
             \/ k = 18 /\ Some(OthersE)
             \/ k = 19 /\ (IF open THEN File ELSE NoCall)
             \/ k = 20 /\ (IF ENABLED Again(1) THEN \E i \in {j \in 1..3 : ENABLED Again(j)} : Again(i) ELSE IF open THEN File ELSE NoCall)
             \/ k \in {21, 22} /\ (IF open THEN EndCall ELSE SaveLoad)
             \/ k = 23 /\ (\E f \in R1(Fails) : Fail(f))
             \/ k = 25 /\ Some(ColsE)
             \/ k \in {26, 27} /\ Some(PossE)
             \/ k = 28 /\ Some(StylesE)
             \/ k \in {29, 30} /\ Some(ConsE)
             \/ k = 24 /\ (IF open THEN EndCall ELSE SaveLoad)
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* lookups in the merged airspace
Inhab(d, p) == {e \in (DOMAIN d.secs) \X (DOMAIN d.vols) : d.secs[e[1]].prio # <<>> /\ e[2] \in d.secs[e[1]].vs /\ Inside(Ring(d.vols[e[2]].ring), p)}
Find(d, p, l2) == LET o == {e[1] : e \in {x \in Inhab(d, p) : d.vols[x[2]].lo * 2 <= l2 /\ l2 < d.vols[x[2]].hi * 2}} IN IF o = {} THEN 0 ELSE Min(o)
Spots == {<<1, 1>>, <<3, 3>>, <<5, 5>>, <<-1, 4>>, <<9, 9>>}
Lines == {<< <<5, 5>>, <<7, 7>> >>, << <<-3, 1>>, <<-1, 1>> >>}
Q(d) == [find |-> SetToSeq({<<p, l, Find(d, p, l)>> : p \in Spots, l \in {0, 100, 250}}),
         at |-> SetToSeq({<<p, SetToSeq(Inhab(d, p))>> : p \in Spots}),
         near |-> SetToSeq({<<l, SetToSeq({e \in (DOMAIN d.secs) \X (DOMAIN d.vols) : d.secs[e[1]].prio # <<>> /\ e[2] \in d.secs[e[1]].vs /\ BoxesMeet(Ring(d.vols[e[2]].ring), l)})>> : l \in Lines})]
X(d0) == LET d == Resolved(d0) IN
         [num |-> [p \in Nums |-> d.num[p].v], flag |-> d.flag, text |-> d.text, codes |-> Pairs(d.codes), files |-> d.files, air |-> Pairs(d.air), col |-> d.col, poss |-> Pairs(d.poss), styles |-> Pairs(d.styles), cons |-> Pairs(d.cons),
          secs |-> SetToSeq({<<i, d.secs[i].prio, SetToSeq(d.secs[i].vs)>> : i \in DOMAIN d.secs}),
          vols |-> SetToSeq({<<i, Ring(d.vols[i].ring), d.vols[i].lo, d.vols[i].hi>> : i \in DOMAIN d.vols}), q |-> Q(d)]
\* an edit changes its own part of the document only
Part(k) == CASE k = "codes" -> "codes" [] k = "vol" -> "vols" [] k = "sec" -> "secs" [] OTHER -> k
Own == [][/\ TRUE
          /\ (hist'[Len(hist')].op = "edit" => \A f \in {"num", "flag", "text", "codes", "files", "air", "secs", "vols", "col", "poss", "styles", "cons"} :
                 f # Part(hist'[Len(hist')].e.k) => doc[f]' = doc[f])
          /\ (hist'[Len(hist')].op \in {"fail", "file", "save", "none"} => doc' = doc)]_vars
\* without an open call every value is final
Final == ~open => Resolved(doc) = doc
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X(doc')]) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ Len(hist) = Depth) => Case([h |-> hist, x |-> X(doc)])
=============================================================================
