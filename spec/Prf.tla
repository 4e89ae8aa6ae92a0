--------------------------------- MODULE Prf ---------------------------------
(* A profile: settings in categories, and the files they lead to.                  *)
EXTENDS Util
CONSTANTS Depth, Mode

VARIABLES vals,   \* <<category, key>> -> value
          hist
vars == <<vals, hist>>
View == vals
RE(S) == RandomElement(S)
R1(S) == RandomSubset(1, S)
Log(r) == hist' = Append(hist, r)

\* a path: whether it begins at the profile's folder, folders, and the file's name in two parts
P(r, d, s, e) == [own |-> r, dir |-> d, stem |-> s, ext |-> e]
\* what is needed to load anything
Keys == {"sector", "airways", "airportcoords", "airlines", "aircraft", "airports", "SettingsfileSYMBOLOGY"}
Recents == {"Recent1", "Recent2", "Recent9", "Recent10", "Recent0"}
Names == {<<"Settings", k>> : k \in Keys} \cup {<<"RecentFiles", k>> : k \in Recents} \cup {<<"Plugins", k>> : k \in {"Plugin0", "Plugin1", "Plugin10", "Plugin1Display0"}}
         \cup {<<"Settings", "x">>, <<"Other", "sector">>, <<"Recent", "Recent1">>, <<"ASRFastKeys", "1">>}

\* the last line of a setting counts
Set(n, v) == vals' = Put(vals, n, v) /\ Log([op |-> "set", n |-> n, v |-> v])

Dirs == {<<>>, <<"A">>, <<"A", "b c">>, <<"..", "X">>, <<"NavData", "x.y">>, <<"m.sct">>, <<"EDMM.txt", "EDMM">>}
Stems == {<<"EDMM", <<"sct">>>>, <<"EDMM.v1", <<"txt">>>>, <<"noext", <<>>>>, <<"icao", <<"txt">>>>, <<"w ^", <<"asr">>>>, <<"TopSky", <<"dll">>>>, <<"Squawks", <<"dll">>>>, <<"xTopSky", <<"dll">>>>, <<"topsky", <<"dll">>>>, <<"EDMM", <<"sct">>>>, <<"a.sct", <<"sct">>>>, <<".sct", <<>>>>}
Dlls == {<<"TopSky", <<"dll">>>>, <<"Squawks", <<"dll">>>>}
\* every file that is needed is named somewhere
Init == /\ vals = [n \in {<<"Settings", k>> : k \in Keys} |-> P(TRUE, <<"D">>, "f", <<"txt">>)] /\ hist = <<>>
NextExh == \/ \E n \in {<<"Settings", k>> : k \in Keys} \cup {<<"RecentFiles", "Recent1">>, <<"RecentFiles", "Recent9">>, <<"RecentFiles", "Recent10">>, <<"Other", "sector">>} :
                \E v \in {P(TRUE, <<>>, "a.b", <<"c">>), P(FALSE, <<"A">>, "n", <<>>), P(TRUE, <<"..", "A">>, "n", <<"x">>)} : Set(n, v)
           \/ \E n \in {<<"Plugins", "Plugin0">>, <<"Plugins", "Plugin1">>}, f \in Stems, r \in BOOLEAN : Set(n, P(r, <<"P", "q">>, f[1], f[2]))
NextSim == \E k \in R1(1..4) : \E n \in R1(Names), d \in R1(Dirs), r \in R1({TRUE, TRUE, FALSE}), f \in R1(IF k = 1 THEN Dlls ELSE Stems) :
             Set(IF k = 1 /\ RE(1..2) = 1 THEN <<"Plugins", "Plugin1">> ELSE n, P(r, d, f[1], f[2]))
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
File(p) == IF p.ext = <<>> THEN p.stem ELSE p.stem \o "." \o p.ext[1]
Path(p) == [own |-> p.own, c |-> Append(p.dir, File(p))]
Setting(k) == vals[<<"Settings", k>>]
\* the sector file's companion has its name with another ending
Companion(p) == [own |-> p.own, c |-> Append(p.dir, p.stem \o ".ese")]
Beside(p, f) == [own |-> p.own, c |-> Append(p.dir, f)]
Folder(p) == [own |-> p.own, c |-> p.dir]
\* any of the plugins of that name, always the same
Plugs(s) == {vals[n] : n \in {m \in DOMAIN vals : vals[m].stem = s /\ vals[m].ext = <<"dll">>}}
Recent(i) == LET n == <<"RecentFiles", "Recent" \o ToString(i)>> IN IF Has(vals, n) THEN <<Path(vals[n])>> ELSE <<>>
X == [sct |-> Path(Setting("sector")), ese |-> Companion(Setting("sector")), airways |-> Path(Setting("airways")), isec |-> Beside(Setting("airways"), "isec.txt"),
      navdata |-> Path(Setting("airportcoords")), airlines |-> Path(Setting("airlines")), aircraft |-> Path(Setting("aircraft")), airports |-> Path(Setting("airports")),
      symbology |-> Path(Setting("SettingsfileSYMBOLOGY")),
      squawks |-> SetToSeq({Beside(p, "squawks.json") : p \in Plugs("Squawks")}), topsky |-> SetToSeq({Folder(p) : p \in Plugs("TopSky")}),
      recent |-> [i \in 1..10 |-> Recent(i)]]
\* a line changes the files of its own setting only
Own == [][/\ TRUE
          /\ \A k \in Keys : (hist'[Len(hist')].n # <<"Settings", k>>) => Setting(k)' = Setting(k)
          /\ \A i \in 1..10 : (hist'[Len(hist')].n # <<"RecentFiles", "Recent" \o ToString(i)>>) => Recent(i)' = Recent(i)]_vars
Needed == \A k \in Keys : Has(vals, <<"Settings", k>>)
EmitT == IF Mode = "exh" THEN Case([h |-> hist', x |-> X']) ELSE TRUE
EmitI == (Mode = "sim" /\ hist # <<>> /\ (Len(hist) = Depth \/ Len(hist) % 8 = 0)) => Case([h |-> hist, x |-> X])
=============================================================================
