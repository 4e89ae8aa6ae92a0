#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
A = "src/adaptation/"
p("C01", "Airway expansion returns the real, complete route along the airway",
  "Expanding an airway from a start place to an end name gives the places passed after the start up to and including the end, in order along recorded stretches of that airway only, each with its own position, whether the airway may be flown in that direction, the stretch's minimum level, and whether that very place is in the sector file. It gives nothing exactly when the airway or one of the ends on it is unknown or the route is not determined (gap, fork or end never reached), and it always terminates, also on closed airways. A start known by name and position is that place; otherwise the first place of that name on the airway is used, as for the end.",
  ["inputs"], "every airway network (any set of records, duplicate names, closed, branching or interrupted airways, airways sharing places) and every (start, end, airway) query",
  "Tests expand a handful of segments on one network; direction flags, cycles, branches and name-to-position disambiguation combine without bound.",
  [A+"locations/airways.rs", "src/airway.rs", A+"locations/mod.rs"], [("airway graph traversal", A+"locations/airways.rs")],
  ["AirwayGraph::expand_airway_segment"])
p("C02", "Airway records merge into one network, independent of record order",
  "Each record links its place with up to two neighbours on the record's airway, in both directions; flying from a place to a neighbour is allowed exactly if some record of that place says so, and the minimum level of a stretch is the lowest one stated by any record from either end (none if none states one). Places are told apart by name and position (to a millionth of a degree), nothing is linked that no record links, and the order of records does not matter.",
  ["inputs"], "every airway file: any records, any order, stretches stated from one or both ends or repeatedly, with equal or different levels",
  "Tests look at a few records of one file in one order; merging depends on which of the records of a stretch comes first.",
  ["src/airway.rs", A+"locations/airways.rs"], [("segment merging", A+"locations/airways.rs")],
  ["parse_airway_txt", "AirwayGraph::expand_airway_segment"])
p("C03", "Sector lookup answers from the current airspace after any history",
  "Looking up the sector at a point and level returns the sector with the smallest id (byte order) among those that have an owner list and a volume whose border strictly contains the point and whose levels include it (lower bound inclusive, upper bound exclusive), and nothing if there is none; the volume listings at a point and near a line agree with the same data. This holds after any sequence of edits followed by a refresh, and across copies, saving and loading, overlays, and simultaneous first lookups from several threads; without a refresh, answers keep describing the data as of the last refresh or first lookup.",
  ["histories", "schedules", "inputs"], "every history of edits, refreshes, copies, save/load, overlays and (concurrent) lookups, over any volumes and points",
  "Tests use one or two square volumes and one rebuild; overlap, boundaries, non-convex borders, stale caches and concurrent first use are unbounded.",
  [A+"sector_index.rs", A+"mod.rs"], [("lazily built spatial index with explicit rebuild", A+"sector_index.rs")],
  ["Adaptation::find_sector", "Adaptation::volumes_at", "Adaptation::volumes_near_line", "Adaptation::rebuild_sector_index"])
p("C04", "A volume's border uses every given border edge exactly once",
  "When the border lines of an airspace volume can be walked as one closed loop that uses every edge exactly once, the volume exists and its border is such a loop, counter-clockwise, with exactly the given edges, whatever order and direction the lines are given in. When they cannot, the volume is left out and all other volumes are unaffected.",
  ["inputs"], "every set of border lines, in any order and orientation, including borders touching themselves in a point, disconnected or open ones",
  "Tests check a few well-formed borders; the walk depends on the order of lines, on hash order, and on branching vertices.",
  [A+"sectors.rs"], [("closed walk over border edges", A+"sectors.rs")], ["Sectors::from_ese", "Adaptation.volumes"])
p("C05", "Volumes are grouped into sectors by owners and runway conditions",
  "Every usable volume belongs to exactly one sector, two volumes share a sector exactly if they have the same owner list (in order) and the same active-runway conditions, and a sector carries precisely the owners, conditions and departure and arrival airports of its volumes. Loading the same file again yields the same sectors under the same ids.",
  ["inputs", "histories"], "every ESE airspace section, and every repeated load of it",
  "Tests compare one file's sector count; ids depend on hash iteration order, which differs from run to run.",
  [A+"sectors.rs"], [("grouping by owners and runway filter", A+"sectors.rs")], ["Sectors::from_ese", "Adaptation.sectors"])
p("C06", "Airspace records resolve by name, whatever their order in the file",
  "An airspace sector gets exactly the owners, borders, airports and levels of its own record (the first list of each kind) and all of its active-runway conditions in order; border names resolve to lines defined before or after it, names without a line are skipped, and of several records with the same name the last counts. Display lines, coordination points and records of other kinds never disturb a sector, and blank lines, comments and unknown sections are ignored.",
  ["inputs"], "every interleaving of airspace records, comments and sections",
  "Tests parse one real file and a few snippets in the usual order.",
  ["src/ese.rs", "src/pest/ese.pest"], [("two-pass collection of airspace records", "src/ese.rs")], ["Ese::parse"])
p("C07", "Controller positions keep every field, including all visibility points",
  "Every position record yields the position under its identifier with its name, callsign, frequency, prefix, middle, suffix, squawk range and every one of its (up to four) visibility points in order, whichever optional trailing fields are given, and the adaptation keeps them. Of several records with the same identifier the last counts.",
  ["inputs"], "every position record: any combination of optional fields, any number of visibility points",
  "Tests list a few positions with the squawk range present.",
  ["src/ese.rs", "src/pest/ese.pest", A+"mod.rs"], [("position record parsing", "src/ese.rs")], ["Ese::parse", "Adaptation.positions"])
p("C08", "SIDs and STARs keep airport, runway, name and waypoints in order",
  "Every SID and STAR record of the ESE file yields one procedure with its airport, runway, name and waypoints in order, in the adaptation's collection for its kind, under its airport and name; known waypoints carry their position, unknown ones are left out without losing the rest or their order.",
  ["inputs"], "every list of procedure records and every set of known waypoints",
  "Tests check a few records of one file.", ["src/ese.rs", A+"locations/mod.rs"],
  [("procedure conversion", A+"locations/mod.rs")], ["Ese::parse", "Locations.sids", "Locations.stars"])
p("C09", "SCT sections may come in any order and one bad line spoils nothing else",
  "Parsing an SCT file in which no section occurs twice gives the header and each section's records, complete and in order, whatever the order of the sections. Colour definitions may stand anywhere between records; the last valid one of a name counts and one outside the colour range none. Comments behind records and on lines of their own and blank lines change nothing, and a line among the fixes or NDBs that lacks a valid name, frequency or coordinate is dropped without affecting any other record.",
  ["inputs"], "every permutation of sections and every placement of colour definitions, comments and broken records",
  "Tests use one file in one order.", ["src/sct.rs", "src/pest/sct.pest"],
  [("section parsing", "src/sct.rs")], ["Sct::parse"])
p("C10", "Map line records become polylines without losing segments or colours",
  "Consecutive line records of one named group form polylines: every segment of the file appears exactly once, in order, under its own name and colour; polylines are joined exactly where one record ends where the next of the same colour starts.",
  ["inputs"], "every sequence of line records over any points, colours and names",
  "Tests check a couple of groups.", ["src/sct.rs"], [("grouping of coordinate pairs", "src/sct.rs")],
  ["Sct::parse"])
p("C11", "Writing an SCT file and reading it back changes nothing",
  "Writing parsed SCT data as text and parsing that text gives the same data again: the header (or none), colours, and every record of every section with all its fields, positions to the millisecond of arc. The writer may sort the records of a section but keeps the order of those with the same name (runways: the same airport); writing again gives the same text.",
  ["inputs"], "every SCT file the parser accepts",
  "Tests format a few items and compare text.", ["src/sct.rs", "src/lib.rs"], [("Display for Sct", "src/sct.rs")],
  ["Sct::parse", "Sct as Display"])
p("C12", "Degrees-minutes-seconds text is always normal form and reads back",
  "Formatting a position gives hemisphere (by sign, also of zero), degrees in at least three digits, minutes below 60 in two and seconds below 60 with three decimals, and denotes the position to half a millisecond of arc. Reading such text gives that position and formatting it again the same text; reading adds up degrees, minutes and seconds as given.",
  ["inputs"], "every position, including those that round up to a full minute or degree, negative zero and out-of-range dummy values",
  "Tests format three positions.", ["src/lib.rs"], [("sexagesimal formatting with carry", "src/lib.rs")],
  ["DegMinSecExt", "Sct::parse"])
p("C13", "A place name resolves by fixed precedence of its kinds",
  "Resolving a name gives the position of the first kind that knows it, in the order VOR, NDB, fix, airport, runway, then coordinates and bearing-distance forms; names of the same kind at several positions keep all of them, and an unknown name resolves to nothing.",
  ["inputs"], "every set of named places with clashing names, and every name or coordinate form",
  "Tests look up a handful of names without clashes.", [A+"locations/mod.rs"],
  [("designator conversion", A+"locations/mod.rs")], ["Locations::convert_designator", "Locations::convert_location"])
p("C14", "Airports combine the three airport sources with fixed precedence",
  "The airports of an adaptation combine the sector file, the navigation data list and the ICAO list: the position comes from the sector file, else from the navigation data; the name from the navigation data, else from the ICAO list; the country from the ICAO list, which adds no airports of its own. Runways belong to the airport they name, in order, and no source removes or overwrites what an earlier one gave.",
  ["inputs"], "every combination of presence, absence and duplication of an airport in the three sources",
  "Tests use real files where sources agree.", [A+"locations/mod.rs"], [("airport merging", A+"locations/mod.rs")],
  ["Adaptation.locations.airports"])
p("C15", "A place is in the sector file if its name is listed at that position",
  "A name counts as known exactly if it is the name of a VOR, NDB, fix, airport (of the sector file or the navigation data list) or runway, and a place counts as part of the sector file exactly if a VOR, NDB or fix of that name lies at that position (to a millionth of a degree), for any number of places sharing the name.",
  ["inputs"], "every set of places, names shared by several places",
  "Tests have no duplicated names.", [A+"locations/mod.rs"], [("membership tests", A+"locations/mod.rs")],
  ["Locations::contains_designator", "Locations::contains_nav_element"])
p("C16", "Airway drawing lines show every airway segment of the sector file",
  "The lines drawn for high and low airways contain, per airway name, exactly the segments of the sector file whose ends are known, none more often than it is recorded and in lines of at least two points. Segments recorded one after the other, each from where the last ended to a place not yet passed, are one line in that order.",
  ["inputs"], "every list of airway segments per name: chained, reversed, branching, closed or disconnected",
  "Tests check that something is drawn.", [A+"sct_items.rs"], [("joining of segments", A+"sct_items.rs")],
  ["Adaptation.sct_items"])
p("C17", "Every drawn sector file line has its own colour or its kind's default",
  "Each line group of the sector file is drawn with all its known points in the colour its record names, and without one (or with an unknown one) in the colour the symbology gives to exactly its own kind (SID, STAR, the three ARTCC kinds, GEO). A colour name means the plugin's definition, else the sector file's, else the plugin's built-in colour of the configured variant; every other colour comes from its own symbology or plugin setting, else its default.",
  ["inputs", "configurations"], "every combination of item kinds, colour names, and sources defining them",
  "Tests use one configuration whose kinds share colours.", [A+"sct_items.rs", A+"colours.rs"],
  [("colour resolution", A+"colours.rs")], ["Adaptation.sct_items", "Adaptation.colours"])
p("C18", "Symbols come from the most specific source that defines them",
  "For each symbol the plugin's definition (that of its map file before that of its symbol file) wins over the symbology file's, which wins over the built-in one for that very symbol; of several in one file the last counts. Every symbol of the plugin can be looked up by name. Drawing rules keep order and values, angles being taken modulo a full turn.",
  ["inputs", "configurations"], "every combination of defined and undefined symbols in the sources",
  "Tests use one symbology file that defines them all.", [A+"symbols.rs", "src/symbology.rs", "src/topsky/symbol.rs"],
  [("symbol precedence", A+"symbols.rs")], ["Adaptation.symbols"])
p("C19", "Line styles: built-ins stay, custom ones are added with their pattern",
  "The built-in line styles always have their built-in pattern, and each custom style is available under its upper-case name with its dash lengths and gaps in order, the last of several definitions of a name (in whatever letter case) counting.",
  ["inputs"], "every list of custom styles, including ones named like built-ins, in any letter case",
  "Tests define one style.", [A+"line_styles.rs", "src/topsky/map/mod.rs"], [("line style table", A+"line_styles.rs")],
  ["Adaptation.line_styles"])
p("C20", "Each map element is drawn with the settings in force where it was written",
  "Every line, polygon, symbol and text of a plugin map whose place is known is drawn exactly once, in the order written, and carries the colour, line style and width, font size, layer, zoom limit and display restriction in force at its place in the map definition; later settings never change earlier elements, and every map begins with the defaults. Before a map's first colour its first known colour holds. Lines that run on without anything between them are one. What lies at no known place is left out.",
  ["inputs"], "every sequence of map settings and drawing commands",
  "Tests check short maps with few style changes.", [A+"maps/mod.rs", "src/topsky/map/mod.rs"],
  [("style groups", A+"maps/mod.rs")], ["Adaptation.maps"])
p("C21", "No map is lost when maps are put into folders",
  "Every plugin map that names a known colour appears exactly once, in the folder it names last (AUTO if none); maps of the same name in one folder are all kept, the later ones under a numbered name not yet in use. The AUTO folder and the folders named by an override are hidden, others are not.",
  ["inputs"], "every list of maps with clashing names and folders",
  "Tests use distinct names.", [A+"maps/mod.rs"], [("folder insertion", A+"maps/mod.rs")], ["Adaptation.maps"])
p("C22", "Map activation conditions are kept exactly",
  "The activation of a map is the list, in order, of its alternatives, each the list of conditions joined by AND, each condition with exactly its kind and arguments: every name in a list, every airport, runway, identifier and exclusion, and absent ones absent. (Of schedules only the kind is kept.)",
  ["inputs"], "every list of activation conditions with any arguments", "Tests contain one example per kind.",
  ["src/topsky/map/active.rs", A+"maps/active.rs"], [("activation parsing", "src/topsky/map/active.rs")],
  ["Topsky::parse", "Adaptation.maps"])
p("C23", "Constraints are taken from agreements with a level, split by direction",
  "Every agreement record with a level yields a departure constraint if it has a climb level and otherwise a destination constraint, with all fields kept; records without a level yield none. Of several such records of one kind that differ in nothing but levels and description, the last counts. Shown as text, a constraint names its fix (or *), the sectors it leads from and to, its levels in hundreds of feet and its departure, or else its arrival, runway.",
  ["inputs"], "every list of agreement records", "Tests look at one file.",
  [A+"constraints.rs", "src/ese.rs"], [("constraint extraction", A+"constraints.rs")],
  ["Adaptation.departure_constraints", "Adaptation.destination_constraints"])
p("C24", "Coordination times resolve by the most specific setting",
  "For each kind of coordination time (ABI, ACT, REV) on its own, the time in force is the agreement's own where it gives one, otherwise that of the override for the partner FIR of exactly this name, otherwise the unit's general one (built in: ACT 15, ABI 30, REV 5 minutes; an answer is waited for 5 seconds); changing one kind, partner or agreement changes no other, also across saving, loading and overlays.",
  ["inputs", "configurations"], "every set of settings and every pair of units", "Tests cover a few pairs.",
  [A+"settings/mod.rs"], [("most specific match", A+"settings/mod.rs")], ["CoordinationSettings::resolve"])
p("C25", "Special-use squawk ranges expand to exactly their octal codes",
  "Every single code of the squawk file, and every octal code from the start to the end of every range, both included, is listed under its four-digit form with its message; of several entries for one code the last counts. Nothing else is listed: entries with neither or both forms, or with something that is no octal number, and ranges the wrong way round give no code.",
  ["inputs"], "every range", "Tests have one code.", [A+"settings/mod.rs", "src/squawks.rs"],
  [("octal expansion", A+"settings/mod.rs")], ["SsrSettings::from_squawks_json"])
p("C26", "Overlays merge from left to right and change nothing else",
  "Applying overlays, in one call or several, equals merging them left to right over the loaded adaptation: later overlays win, additions and references to the value before (super) and in the end (self) mean what jsonnet says, everything they do not mention stays as it was (decimal numbers to within their last digit), no overlay or an empty one changes nothing. An overlay that is missing, not jsonnet or that leaves a value of the wrong kind gives an error. Lookups afterwards use the merged airspace.",
  ["inputs", "histories"], "every sequence of overlays and calls", "Tests apply one overlay.",
  [A+"mod.rs", A+"sectors.rs"], [("jsonnet merge", A+"mod.rs")], ["Adaptation::apply_jsonnet_overlays", "Adaptation::from_prf_with_overlays"])
p("C27", "Profile settings resolve to the same files and values wherever read from",
  "Every setting of a profile has the value of its last line, whatever the other lines say. A path starting with a backslash or slash lies in the profile's folder, any other in the current directory, however the profile's own path is written. The ESE file has the sector file's name with its own ending, isec.txt lies beside the airways file, squawks.json beside Squawks.dll, and the plugin's files beside TopSky.dll; where several lines name such a plugin, it is the same one on every load.",
  ["inputs", "histories", "configurations"], "every profile file and repeated loading", "Tests use one profile.",
  ["src/prf.rs", A+"mod.rs"], [("settings lookup and path resolution", "src/prf.rs")],
  ["Prf::parse", "Adaptation::from_prf"])
p("C28", "Reference lists keep one entry per key with every field",
  "The aircraft, airline and the two airport lists yield exactly the records of their files with every field as written (categories and kinds by their letter, coupled or unknown engine numbers as none), the first of several of one key; comments, empty lines and names that run on yield none. The fix list yields every record, in order, and written out and read again is the same. The wake category of a type not listed is unknown.",
  ["inputs"], "every list, with comments, blank lines and duplicates", "Tests parse three lines each.",
  ["src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/isec.rs"],
  [("record parsing", "src/icao_airlines.rs")], ["parse_aircraft", "parse_airlines", "parse_airports", "parse_isec_txt"])
p("C29", "Display settings reflect every line of the file",
  "A display file (ASR) yields for every setting exactly the value of its line (the first if repeated) whatever else the file says, and otherwise the documented default; for every plugin and key the value of its last line; and for every kind of sector-file element exactly the ones switched on, in order, with what of them is shown. Altitude filters of 0 are none, leader lengths above 0 are miles and others minutes, areas may be written in decimal degrees or degrees, minutes and seconds.",
  ["inputs"], "every set and order of lines", "Tests parse one file.", ["src/asr.rs"], [("settings collection", "src/asr.rs")],
  ["Asr::parse"])
p("C30", "Malformed input is reported as an error, never as a crash",
  "Reading any bytes as any of the supported files (profile, sector file, ESE, airways, fix list, symbology, plugin files, display file, reference lists, squawks, adaptation list, overlay) ends with a result or an error; it never panics, aborts or hangs, neither on its own nor as part of a whole profile. Where a number or keyword of a strict record is no longer one, with an error. What was read can be written out and asked any question, with any place name, position or level, without a panic either. (Overlays are programs; ones that do not end or are nested thousands deep are left out.)",
  ["inputs", "fault_sequences"], "every byte string, in particular every sequence of faults of a valid file",
  "Tests feed well-formed files.", ["src"], [("grammars and conversions", "src/pest")],
  ["all public parse functions", "Adaptation::from_prf", "all lookups"])
p("C31", "Display settings come from the symbology item and plugin setting of their own",
  "The line style of each kind of sector-file line and the font size and alignment of each kind of label are those of exactly its own symbology item, the last of several counting, and otherwise the built-in ones; map font size, history dots and prediction line are those of the plugin's settings where these are numbers, and otherwise the built-in ones; the choices offered for dots (0 to 8) and line (half a minute to 20 minutes) are always the same.",
  ["inputs", "configurations"], "every combination of items and settings present, absent, repeated or malformed",
  "Tests use one symbology file with the same values for most items.", [A+"settings/mod.rs", A+"settings/track.rs", "src/symbology.rs", "src/topsky/settings.rs"],
  [("settings from items", A+"settings/mod.rs")], ["Adaptation.settings"])
p("C32", "A profile loads exactly when its required files do, and shows what they say now",
  "Loading a profile (directly, with overlays, or through an adaptation.toml) succeeds exactly when the profile names all its required files and all of them, and every listed overlay, are present and well-formed; otherwise it returns an error of the kind of one of the things wrong, and never panics. The plugin's files and the squawks file never prevent loading: squawks count if well-formed, the plugin's files together if settings and maps are present and all are well-formed. A successful load shows for every part what the file the profile names for it says at that moment, whatever was loaded before and whatever lies elsewhere, and lists the profile's recent display files 1 to 9, those given, in order of their numbers; paths in an adaptation.toml are relative to its folder.",
  ["inputs", "fault_sequences", "histories", "configurations"], "every combination and history of present, missing, broken and exchanged files",
  "Tests load one complete profile.", [A+"mod.rs", "src/prf.rs", "src/topsky/mod.rs"], [("loading", A+"mod.rs"), ("TopSky files", "src/topsky/mod.rs")],
  ["Adaptation::from_prf", "Adaptation::from_prf_with_overlays", "Adaptation::from_adaptation_toml", "Topsky::parse"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
