------------------------------- MODULE Faults --------------------------------
(* A file of every kind that is read, and what can happen to a file: a field, a     *)
(* separator or a line is lost, doubled, moved or replaced, the rest is cut off, the *)
(* encoding is broken.  Reading ends with a result or an error, always; where a      *)
(* number or keyword is no longer one, with an error.                                *)
(* Fields are separated by |, numbers marked ` and keywords & where the format is     *)
(* strict about them.  The harness writes {..} as characters TLA+ has no notation for.*)
EXTENDS Util
CONSTANTS Depth, Mode, Focus

VARIABLES fmt, doc, hist
vars == <<fmt, doc, hist>>
View == <<fmt, doc, Len(hist)>>
R1(S) == RandomSubset(1, S)

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
\* the fields of a line
Split(s) == FoldLeft(LAMBDA a, c : IF c = "|" THEN Append(a, "") ELSE [a EXCEPT ![Len(a)] = @ \o c], <<"">>, Chars(s))
Tok(t) == IF t # "" /\ SubSeq(t, 1, 1) \in {"`", "&"} THEN [k |-> SubSeq(t, 1, 1), t |-> SubSeq(t, 2, Len(t))] ELSE [k |-> "", t |-> t]
Line(s) == LET ts == Split(s) IN [i \in 1..Len(ts) |-> Tok(ts[i])]
Doc(ls) == [i \in 1..Len(ls) |-> Line(ls[i])]

Formats == {"sct", "ese", "airspace", "airway", "isec", "symbology", "maps", "elements", "symbols", "settings", "prf", "asr", "aircraft", "airlines", "airports", "navdata",
            "squawks", "toml", "overlay", "places"}
Text(f) ==
  CASE f = "sct" -> <<
    "&[INFO]", "World", "AAAA_CTR", "AAAA", "&N|`048|.|`00|.|`00.000", "&E|`011|.|`00|.|`00.000", "`60", "`39", "`-1.0", "1",
    "#define| |CA| |255",
    "[VOR]", "VVV| |`112.300| |&N|`048|.|`30|.|`00.000| |&E|`011|.|`30|.|`00.000",
    "[NDB]", "NNN| |426.000| |N|048|.|31|.|00.000| |E011.30.00.000",
    "[FIXES]", "FAAAA| |N048.32.00.000| |E|011|.|30|.|00.000",
    "[AIRPORT]", "AAAA| |`118.700| |&N048.00.00.000| |&E011.00.00.000| |&D",
    "[RUNWAY]", "`08|L| |`26|R| |`080| |`260| |&N048.00.00.000| |&E011.00.00.000| |&N048.01.00.000| |&E011.01.00.000| |AAAA|",
    "[SID]", "S| |one| |N048.00.00.000| |E011.00.00.000| |N048.01.00.000| |E011.01.00.000| |CA", "          N048.01.00.000 E011.01.00.000| |FAAAA FAAAA",
    "[STAR]", "STAR two| N|048|.|00|.|00.000| E011.00.00.000 |N048.01.00.000 E011.01.00.000",
    "[ARTCC HIGH]", "High N048.00.00.000 E011.00.00.000 N048.01.00.000 E011.01.00.000| CA",
    "[ARTCC]", "Mid N048.00.00.000 E011.00.00.000 |VVV VVV| CA",
    "[ARTCC LOW]", "Low NNN NNN VVV VVV",
    "[HIGH AIRWAY]", "U1| |FAAAA FAAAA| |N048.00.00.000 E011.00.00.000",
    "[LOW AIRWAY]", "L1| |FAAAA FAAAA| |VVV VVV",
    "[GEO]", "Geo N048.00.00.000 E011.00.00.000 N048.01.00.000 E011.01.00.000 |16711680",
    "[REGIONS]", "REGIONNAME| |Reg", "CA| |N|048|.|00|.|00.000| E011.00.00.000", " N048.01.00.000| |E011.00.00.000", " N048.01.00.000 E011.01.00.000",
    "[LABELS]", "\"|Label|\"| |N|048|.|00|.|00.000| E011.00.00.000| |CA">>
  [] f = "ese" -> <<
    "&[POSITIONS]", "A_CTR|:|Radar|:|`129.100|:|ALB|:|AL|:|EDMM|:|CTR|:||:||:|2354|:|2367|:|&N|`048|.|`00|.|`00.000|:|E011.00.00.000|:|N049.00.00.000|:|E011.00.00.000",
    "B_CTR|:|Radar|:|199.998|:||:||:|EDMM|:|TWR|:|-|:|-|::",
    "&[AIRSPACE]", "COPX|:|AAAA|:|08R|:|FAAAA|:|*|:|*|:|E~T~000~105|:|E~X~000~105|:|`9000|:|&*|:|text", "FIR_COPX:|*|:|*|:|FBBBB|:|BBBB|:|26L|:|A~B~1~2|:|C~D~1~2|:|&*|:|`12000|:|to B",
    "MSAW|:|m|:|`4000", "COORD|:|N048.00.00.000|:|E011.00.00.000", "COORD|:|N048.00.00.000|:|E011.00.00.000",
    "DISPLAY_SECTORLINE:|1|:|a|:|b|:|c",
    "&[SIDSSTARS]", "SID|:|AAAA|:|08R|:|FA1N|:|FAAAA VVV |FBBBB", "STAR|:|BBBB|:||:|FB2A|:|NNN |FAAAA",
    "[FREETEXT]", "whatever|:|here">>
  [] f = "airspace" -> <<
    "[POSITIONS]", "A_CTR:Radar:129.100:ALB:AL:EDMM:CTR:::2354:2367",
    "[AIRSPACE]",
    "SECTORLINE:|1", "DISPLAY|:|a|:|b|:|c", "COORD|:|&N|`048|.|`00|.|`00.000|:|E011.00.00.000", "COORD:|N049.00.00.000|:|E011.00.00.000",
    "SECTORLINE:|2", "COORD:N049.00.00.000:E011.00.00.000", "COORD:|N049.00.00.000|:|E012.00.00.000", "COORD:|N048.30.00.000:|E012.30.00.000",
    "SECTORLINE:3", "COORD:N048.30.00.000:E012.30.00.000", "COORD:|N048.00.00.000|:E011.00.00.000",
    "CIRCLE_SECTORLINE|:|4|:|FAAAA|:|`20.5", "DISPLAY:a:b:c",
    "SECTOR|:|E|~|TRI|~|000|~|105|:|`00000|:|`10500", "OWNER|:|ALB|:|ED", "ALTOWNER|:|Night|:|ED", "BORDER|:|1|:|2|:|3", "DEPAPT|:|AAAA|:|BBBB", "ARRAPT|:|AAAA", "ACTIVE|:|AAAA|:|08R", "GUEST|:|ALB|:|*|:|*",
    "SECTOR:|E~CIR~105~245|:|10500|:|24500", "OWNER:ALB", "BORDER:|4", "ACTIVE:|AAAA|:|26L",
    "[SIDSSTARS]">>
  [] f = "airway" -> <<
    "AAAA1|\t|`48.000000|\t|`11.000000|\t|`14|\t|Y1|\t|&B|\t|BBBB1|\t|`48.500000|\t|`11.000000|\t|`09500|\t|&Y|\t||\t||\t||\t||\t|&N",
    "BBBB1|\t|48.500000|\t|11.000000|\t|14|\t|Y1|\t|B|\t|CCCC1|\t|49.000000|\t|11.000000|\t|&NESTB|\t|Y|\t|AAAA1|\t|48.000000|\t|11.000000|\t|09500|\t|&N",
    "CCCC1|\t|49.000000|\t|11.000000|\t14\tY1\t||\t|BBBB1|\t48.500000\t11.000000\t||\t|Y|\t|0|\t|0|\t|0|\t|0|\t|N",
    "AAAA1\t|-48.000000|\t|-11.000000|\t14\tZ9\tL\t\t\t\t\tN\t\t\t\t\tN">>
  [] f = "isec" -> <<"AAAA1| |`48.000000| |`11.000000| |`15", "BBBB1|\t|-0.000001|\t|-179.999999|\t|15", "CCCC1 |1.0| |2.0| 15">>
  [] f = "symbology" -> <<
    "&SYMBOLOGY", "&SYMBOLSIZE", "Other|:|nothing|:|`1|:|`3.5|:|`0|:|`0|:|`7", "Geo|:|line|:|`255|:|3.3|:|3|:|2|:|8", "Fixes:symbol|:|`-1|:|0|:|0|:|0|:|14",
    "SYMBOL|:|`0", "SYMBOLITEM:|&MOVETO| |`-3| |`-3", "SYMBOLITEM:|&LINETO| |3| |3.5", "SYMBOLITEM:|&ARC| |0| |0| |`2.5| |`10| |`350",
    "SYMBOL:|12", "SYMBOLITEM:|&POLYGON| |1| |1| |2| |2| |3| |3", "SYMBOLITEM:|FILLARC| |0| |0| |2| |3| |0| |360", "SYMBOLITEM:|SETPIXEL| |0| |0", "SYMBOLITEM:|ELLIPSE| |0| |0| |2.5", "SYMBOLITEM:|FILLRECT| |0| |0| |2| |2",
    "SYMBOL:|999", "SYMBOLITEM:|ARC| 0 0 |2| |2| |0| |90", "SYMBOLITEM:ELLIPSE 0 0 |1| |2",
    "&m_ClipArea|:|`5", "&END">>
  [] f = "maps" -> <<
    "COLORDEF|:|C1|:|1|:|2|:|3", "LINESTYLEDEF|:|L|:|S|:|U|:|5|,|5|,|2|,|5", "OVERRIDE_SCT_MAP|:|SIDS|\\|one", "SCTFILEPATH|:|x.sct",
    "SYMBOLDEF|:|SY", "MOVETO|:|-1.5|:|0", "LINETO:|2|:|3.7", "ARC|:|0|:|0|:|2|:|0|:|90", "ARC:0:0:|2|:|3|:|10|:|350", "FILLARC:0:0|:|2|:|0|:|90", "POLYGON|:|0|:|0|:|1|:|1|:|2|:|0", "ELLIPSE:|0|:|0|:|3", "ELLIPSE:0:0:|3|:|4", "SETPIXEL:|0|:|0", "FILLRECT:|0|:|0|:|2|:|2",
    "MAP|:|M one", "FOLDER|:|F1", "COLOR|:|C1|:|C2|:|C3", "ASRDATA|:|CTR|,|APP", "ZOOM|:|9", "LAYER|:|-3", "STYLE|:|Dash|:|2", "FONTSIZE|:|=|:|3.5", "FONTSTYLE|:|400|:|1|:|0|:|1",
    "HIDDEN", "GLOBAL", "SCREEN-SPECIFIC", "TEXTALIGN|:|L|T",
    "ACTIVE|:|ID|:|*|:|*|:|IGL,X|:|*", "AND_ACTIVE|:|CALLSIGN|:|*|:|A|:|*|:|*",
    "MAP:M two", "ACTIVE:|RWY|:|ARR|:|AAAA|08|R|:|DEP|:|*", "ACTIVE:RWY:ARR:|*|:|AAAA26L,BBBB09|:DEP:|*|:|*",
    "MAP:M 3", "ACTIVE:|0101|:|1231|:|1234567|:|0600|:|2200", "AND_ACTIVE:|240101|:|991231|:|0|:|0000|:|0000", "AND_ACTIVE:|AREA|:|R1,R2|:|X", "AND_ACTIVE:|NOTAM|:|EDMM|:|a b|,|c", "AND_ACTIVE:|AUP|:|R1", "AND_ACTIVE:|MAP|:|=|:|F|\\|M", "AND_ACTIVE:|1",
    "LINE:1.5:2.5:3:4">>
  [] f = "elements" -> <<
    "MAP|:|M",
    "LINE|:|N|048|.|00|.|00.000|:|E011.00.00.000|:|48.5|:|11.5", "LINE:|FAAAA|:|FBBBB", "TEXT|/|L|C|:|N048.00.00.000|:|E011.00.00.000|:|A text", "TEXT:|FAAAA|:|text",
    "SYMBOL|/|R|B|:|SY|:|N048.00.00.000|:|E011.00.00.000|:|lbl|:|-1|:|2.5", "SYMBOL:|VOR|:|FAAAA",
    "COORD|:|N048.00.00.000|:|E011.00.00.000", "COORD:|FAAAA", "COORD:|48|:|11", "COORDLINE",
    "COORD:48:11", "COORD:49:11", "COORDPOLY|:|50",
    "COORD_CIRCLE|:|N048.00.00.000|:|E011.00.00.000|:|20.5|:|5", "COORDLINE",
    "COORD_AF|:|FAAAA|:|10|:|20|:|5|:|>|:|1", "COORD_HM|:|FAAAA|:|90|M|:|L|:|4|MIN|:|250|KTS|:|5", "COORD_PBD|:|AAAA|/|08R|:|5.5|:|180", "COORDPOLY:|0",
    "SCTFILEDATA|/MONO|:|SIDS|\\|one", "SCTDATA|:|GEO|\\|two", "OVERRIDE_SCT_MAP:|GEO">>
  [] f = "symbols" -> <<
    "&SYMBOL|:|AIRPORT", "&MOVETO|:|`-1.5|:|`0", "&LINETO|:|`2|:|`3.7", "&ARC|:|`0|:|`0|:|`2|:|`0|:|`90", "ARC:0:0:|2|:|3|:|10|:|350", "FILLARC:0:0:|2|:|0|:|90", "FILLARC:0:0:2:3|:|-10|:|370",
    "SYMBOL:|X y", "POLYGON|:|0|:|0|:|1|:|1|:|2|:|0", "ELLIPSE:|0|:|0|:|3", "ELLIPSE:0:0|:|3|:|4", "SETPIXEL|:|0|:|0", "FILLRECT:|0|:|0|:|2|:|2">>
  [] f = "settings" -> <<
    "Airspace_Time|=|10", "Color_Track_Default|=|1|,|2|,|3", "Color_Map_1|=|255|,|255|,|255", "Font_Size_Map|=|3", "Setup_COOPANS|=|1", "System_FontName|=|Courier New", "Color_X",
    "[|EDMM_CTR|]", "Color_Track_Default|=|4|,|5|,|6", "{|x|}", "a/b|=|c|=|d">>
  [] f = "prf" -> <<
    "Settings|\t|sector|\t|\\w.sct", "Settings|\t|airways|\t|\\NavData\\airway.txt", "Settings\tairportcoords\t|\\|NavData|\\icao.txt", "Settings\tairlines\t\\|ICAO\\airlines.txt", "Settings\taircraft\t|\\ICAO\\aircraft.txt",
    "Settings\tairports\t|\\ICAO|\\|airports.txt", "Settings\t|SettingsfileSYMBOLOGY|\t|\\|symbology.txt", "Plugins|\t|Plugin1|\t|\\Sq|\\Squawks.dll", "Plugins\tPlugin2\t|\\Plug|\\TopSky.dll", "RecentFiles|\t|Recent1|\t|\\a|\\b.asr", "LastSession|\tcallsign\t|X">>
  [] f = "asr" -> <<
    "DisplayTypeName:|Standard", "DisplayTypeNeedRadarContent|:|`1", "DisplayTypeGeoReferenced:|`1", "ABOVE|:|`0", "BELOW|:|`10000", "LEADER|:|`3", "LEADER:|`-1", "HISTORY_DOTS|:|`5", "SHOWC:|`1", "SIMULATION_MODE|:|`1", "DisplayRotation|:|`12.5", "DISABLEPANNING:|0", "DISABLEZOOMING:|0", "TAGFAMILY|:|Matias", "TURNLEADER:|0", "SHOWSB:|0", "SHOWLEADER|:|1",
    "WINDOWAREA|:|`48.1|:|`11.1|:|`49.1|:|`12.1", "SECTORFILE|:|w.sct", "SECTORTITLE|:|World",
    "Airports|:|AAAA|:|&name", "Runways|:|AAAA Name| |`08|R|-|`26|L|:|&centerline", "Free Text:|G|\\|T|:|&freetext", "Fixes:|A|:|symbol", "VORs:|A|:|frequency", "NDBs:A:|name", "Low airways:|A|:|line", "High airways:A:|name", "Sids:|A|:|", "Stars:A|:", "Geo:|A|:|", "Ground Network:|A|:|terminal taxiway", "Regions:|A|:|polygon", "ARTCC boundary:|A|:|", "ARTCC low boundary:A:", "ARTCC high boundary:A|:",
    "PLUGIN|:|TopSky|:|Key|:|Value", "WINDOWAREA:|N|048|.|00|.|00.000|:|E011.00.00.000|:|N049.00.00.000|:|E012.00.00.000">>
  [] f = "aircraft" -> <<"QQQ|\t|M|L|2|J|\t|MAKER|\t|NAME", "runs on", "A1B2|\t|J|H|C|E|\t|M \"q\"|\t|N", "B|\t|-|-|-|-|\t|M|\t|N">>
  [] f = "airlines" -> <<"AAA|\t|NAME|\t|CALL|\t|COUNTRY", "BBB|\t||\t||\t|", "CCC|\tN n\tC ^\tL">>
  [] f = "airports" -> <<"AAAA|\t|NAME|\t|COUNTRY", "B1|\t||\t|", "CCCC|\tN\tC">>
  [] f = "navdata" -> <<"AAAA| |48.0| |11.0| |NAME", "BBBB| |-.5| |+7| |N n", "CCCC 1 2 x">>
  [] f = "squawks" -> <<
    "{\"NonDiscreteColor\"|:|\"#00ff00\"|,|\"NonDiscreteMessage\":\"m|\",\"NonDiscrete\":[\"|2000|\"],", "\"Squawks\"|:|[{\"code\":|\"|7500|\"|,\"message\"|:|\"H\",\"color\":\"#|ff|0000\"},",
    "{\"range\":{\"|start|\":|\"|1000|\"|,\"|end|\":\"|1777|\"},\"message\":\"A\",\"color\":\"#ff0000\"}|]|}">>
  [] f = "toml" -> <<"prf| |=| |\"|w.prf|\"", "overlays| |=| |[|\"|o.jsonnet|\"|]">>
  [] f = "overlay" -> <<"{|settings|+:| {|maps|+:| {|font_size|:| |12|}|,|coopans|:| |false|}|,|name|+:|\"|a|\"|}">>
  [] f = "places" -> <<"4830|N|01130|E", "48|N|011|E", "4|N|11|W", "483015|S|0113015|E", "99|N|999|E", "4860N01160E", "999999N9999999W", "VVV|090|020", "VVV|360|000", "VVV|999|999", "FA|AAA", "|AAAA", "DCT">>

Docs == [f \in Formats |-> Doc(Text(f))]
\* what a field can turn into
Wrong == {"x?", "?", "{D}", "{EM}"}
Numbers == {"0", "-1", "+1", "-0", "1.5", ".", "-", "59.9999", "60", "127", "128", "180", "255", "256", "300", "361", "400", "32768", "65536", "99999", "2147483647", "2147483648",
            "4294967296", "9223372036854775808", "99999999999999999999999", "{9x400}", "1e5", "NaN", "inf", "007", "-300", "-70000", "-2147483649", "{DD}", "0x10"}
Others == {"", "x", "*", ":", "::", "/", "\\", "\"", "'", "[", "]", "[X]", ",", " ", "  ", "{TAB}", ";", "//c", "#", "{FF}", "{00}", "{BOM}", "{NL}", "{CR}", "{CRLF}", "^", "~", "N", "E", "NO", "N048.00.00.000", "E011.00.00.000",
           "AAAA", "FAAAA FAAAA", "END", "#define", "$", "%", "{", "}", "(", "{x5000}", "{EM}{EM}", "..", "../../x", "\\\\n\\s", "C:\\x", "MAP:", "SECTOR:", "COPX:"}
Values == Wrong \cup Numbers \cup Others
\* an overlay that refers to itself as a whole does not end
Fits == IF fmt = "overlay" THEN Values \ {"$"} ELSE Values

Init == fmt \in (IF Focus = "all" THEN Formats ELSE {Focus}) /\ doc = Docs[fmt] /\ hist = <<>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED fmt
Lines == 1..Len(doc)
AsIs == hist = <<>> /\ Log([op |-> "asis"]) /\ UNCHANGED doc
Field(l, k, v) == doc' = [doc EXCEPT ![l][k] = [@ EXCEPT !.t = v]] /\ Log([op |-> "field", k |-> doc[l][k].k, v |-> v])
Insert(l, k, v) == doc' = [doc EXCEPT ![l] = SubSeq(@, 1, k) \o <<Tok(v)>> \o SubSeq(@, k + 1, Len(@))] /\ Log([op |-> "insert"])
Lose(l, k) == Len(doc[l]) > 1 /\ doc' = [doc EXCEPT ![l] = RemoveAt(@, k)] /\ Log([op |-> "remove"])
Twice(l, k) == doc' = [doc EXCEPT ![l] = SubSeq(@, 1, k) \o SubSeq(@, k, Len(@))] /\ Log([op |-> "twice"])
\* the end of the line is lost, or of the file, or their beginning
Cut(l, k) == doc' = [doc EXCEPT ![l] = SubSeq(@, 1, k)] /\ Log([op |-> "cut"])
CutAll(l, k) == doc' = SubSeq(doc, 1, l - 1) \o << SubSeq(doc[l], 1, k) \o <<Tok("{EOF}")>> >> /\ Log([op |-> "cutall"])
From(l) == l > 1 /\ doc' = SubSeq(doc, l, Len(doc)) /\ Log([op |-> "from"])
Drop_(l) == Len(doc) > 1 /\ doc' = RemoveAt(doc, l) /\ Log([op |-> "drop"])
Double(l) == doc' = SubSeq(doc, 1, l) \o SubSeq(doc, l, Len(doc)) /\ Log([op |-> "double"])
Move(l, m) == l # m /\ doc' = (LET d == RemoveAt(doc, l) IN SubSeq(d, 1, m - 1) \o <<doc[l]>> \o SubSeq(d, m, Len(d))) /\ Log([op |-> "move"])
Join(l) == l < Len(doc) /\ doc' = SubSeq(doc, 1, l - 1) \o <<doc[l] \o doc[l + 1]>> \o SubSeq(doc, l + 2, Len(doc)) /\ Log([op |-> "join"])
\* thousands of the same line; a line of another kind of file
\* (overlays are programs, and nesting thousands of levels deep is left out)
Many(l) == fmt # "overlay" /\ doc' = [doc EXCEPT ![l] = <<Tok("{MANY}")>> \o @] /\ Log([op |-> "many"])
Foreign(l, f, m) == doc' = SubSeq(doc, 1, l) \o <<Docs[f][m]>> \o SubSeq(doc, l + 1, Len(doc)) /\ Log([op |-> "foreign"])
Clear == doc' = << <<Tok("{EOF}")>> >> /\ Log([op |-> "clear"])

AnyLine(A(_)) == \E l \in Lines : A(l)
NextExh == \/ AsIs
           \/ \E l \in Lines : \E k \in 1..Len(doc[l]) :
                \/ \E v \in Fits \ {doc[l][k].t} : Field(l, k, v)
                \/ Lose(l, k)
                \/ Twice(l, k)
                \/ Cut(l, k)
                \/ CutAll(l, k)
           \/ \E l \in Lines :
                \/ From(l)
                \/ Drop_(l)
                \/ Double(l)
                \/ Join(l)
                \/ Many(l)
                \/ \E m \in Lines : Move(l, m)
           \/ Clear
NextSim == \E l \in R1(Lines) : \E k \in R1(1..Len(doc[l])) : \E c \in R1(1..20) :
             \/ c <= 6 /\ (\E v \in R1(Fits) : Field(l, k, v))
             \/ c \in {7, 8} /\ (\E v \in R1(Fits) : Insert(l, k, v))
             \/ c = 9 /\ (IF Len(doc[l]) > 1 THEN Lose(l, k) ELSE Double(l))
             \/ c = 10 /\ Twice(l, k)
             \/ c = 11 /\ Cut(l, k)
             \/ c = 12 /\ (IF l * 3 > Len(doc) * 2 THEN CutAll(l, k) ELSE Twice(l, k))
             \/ c = 13 /\ (IF l > 1 /\ l * 4 < Len(doc) THEN From(l) ELSE Double(l))
             \/ c = 14 /\ (IF Len(doc) > 1 THEN Drop_(l) ELSE Double(l))
             \/ c = 15 /\ Double(l)
             \/ c \in {16, 17} /\ (\E m \in R1(Lines) : IF m # l THEN Move(l, m) ELSE Double(l))
             \/ c = 18 /\ (IF l < Len(doc) THEN Join(l) ELSE Double(l))
             \/ c = 19 /\ (\E f \in R1(Formats) : \E m \in R1(1..Len(Docs[f])) : Foreign(l, f, m))
             \/ c = 20 /\ (IF Len(hist) = Depth - 1 /\ fmt # "overlay" THEN Many(l) ELSE Twice(l, k))
Next == Len(hist) < Depth /\ (IF Mode = "sim" THEN NextSim ELSE NextExh)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* how reading must end
Must(h) == CASE Len(h) # 1 -> "any" [] h[1].op = "asis" -> "result"
             [] h[1].op = "field" /\ h[1].k # "" /\ h[1].v \in Wrong -> "error"
             [] OTHER -> "any"
Written(d) == [i \in 1..Len(d) |-> FoldLeft(LAMBDA a, b : a \o b.t, "", d[i])]
\* what happens to one line leaves the others as they are
Local == [][LET h == hist'[Len(hist')] IN
            h.op \in {"field", "insert", "remove", "twice", "cut", "many"} =>
              Len(doc') = Len(doc) /\ Cardinality({i \in 1..Len(doc) : doc[i] # doc'[i]}) <= 1]_vars
Known == fmt \in Formats /\ doc # <<>>
EmitT == IF Mode = "exh" THEN Case([f |-> fmt, must |-> Must(hist'), d |-> Written(doc'), h |-> hist']) ELSE TRUE
EmitI == (Mode = "sim" /\ Len(hist) = Depth) => Case([f |-> fmt, must |-> Must(hist), d |-> Written(doc), h |-> hist])
=============================================================================
