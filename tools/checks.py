"""Which specifications decide which property, and how hard."""
TECH = "TLA+ specification checked with TLC; its behaviours replayed into the real code"


def exh(module, domain, consts, **kw):
    d = dict(module=module, domain=domain, consts=dict(consts, Mode="exh"), ac="EmitT", view="View")
    if kw.pop("nomode", False):
        d["consts"] = dict(consts)
    d.update(kw)
    return d


def sim(module, domain, consts, num, depth, **kw):
    d = dict(module=module, domain=domain, consts=dict(consts, Mode="sim"), ac="EmitT", sim=dict(num=num, depth=depth))
    d.update(kw)
    return d


def rec(module, kind, num, **kw):
    """executions recorded from the real code, judged by TLC"""
    return dict(module=module, trace=kind, num=num, **kw)


def pick(tier, q, t):
    return q if tier == "quick" else t


CHECKS = {}


# property -> (part of a world, most entries in quick, most entries in thorough): long lists, all there and in order
LONG = dict(C01=("awy", 2500, 5000), C03=("volume", 600, 600), C05=("airspace", 2500, 5000), C06=("airspace", 2500, 5000), C07=("pos", 2500, 5000),
            C08=("route", 2500, 5000), C09=("sct", 2500, 5000), C10=("lines", 2500, 5000), C11=("sct", 2500, 5000), C17=("region", 2500, 5000),
            C18=("symbols", 2500, 5000), C20=("map", 2500, 5000), C21=("folder", 300, 300), C22=("active", 2500, 5000), C23=("cop", 2500, 5000),
            C25=("squawk", 350, 400), C28=("lists", 1500, 1700), C29=("asr", 2500, 5000))


def long(tier, focus, most, thorough):
    yield exh("Long", "long", dict(Depth=2, Focus=focus, Most=3), inv=["AllThere"], props=["Grow"])
    yield sim("Long", "long", dict(Depth=10, Focus=focus, Most=pick(tier, most, thorough)), pick(tier, 10, 200), 11, inv=["AllThere", "EmitI"])


def check(id, jobs, must=(), level="model_checking", note="", assumptions=(), technique=TECH):
    if id in LONG:
        own = jobs

        def jobs(tier):
            yield from own(tier)
            yield from long(tier, *LONG[id])
        must = list(must) + ["long"]
        note = note + f" Long lists (Long.tla, {LONG[id][0]}): up to {LONG[id][1]} entries in one section, all there and in order."
    CHECKS[id] = dict(jobs=jobs, must=list(must), level=level, note=note,
                      assumptions=list(assumptions), technique=technique)


def long_airways(tier):
    j = sim("Airway", "airway", dict(Depth=70), pick(tier, 60, 1500), 71, inv=["EmitI"])
    j["consts"]["Mode"] = "long"
    return j


def c01(tier):
    yield exh("Airway", "airway", dict(Depth=pick(tier, 2, 3)), inv=["NetworkIsRecords", "RoutesAreReal", "RoutesAreFound", "EmitI"])
    for _ in range(pick(tier, 3, 7)):
        yield sim("Airway", "airway", dict(Depth=25), pick(tier, 250, 6000), 26, inv=["NetworkIsRecords", "EmitI"])
    yield long_airways(tier)
    yield rec("AirwayTrace", "airway", pick(tier, 120, 1200), consts=dict(Depth=1, Mode="trace"), view="TView")


check("C01", c01, must=["rec", "know", "recorded_ask"],
      note="All networks of up to 2 (thorough: 3) records over 3 places and simulated files of 25 records over 9 places and 5 airways "
           "(straight, closed, reversed, names repeated on one airway, rogue links); every answer of the real expansion must be one the "
           "specification allows, and TLC shows on the model that allowed answers are real, complete routes. Bounded sizes.")


def c02(tier):
    yield exh("Airway", "airway", dict(Depth=pick(tier, 2, 3)), inv=["NetworkIsRecords", "EmitI"])
    for n in pick(tier, (7, 12, 40), (7, 9, 12, 18, 25, 40, 60)):
        yield sim("Airway", "airway", dict(Depth=n), pick(tier, 4000, 90000) // n, n + 1, inv=["NetworkIsRecords", "EmitI"])


check("C02", c02, must=["rec", "know"],
      note="TLC shows the merged network equals the union of the records whatever their order; the real network is compared with it "
           "through every expansion (direction flag, minimum level, position, membership per step). Airway type is not observable through the API.")


def c03(tier):
    yield exh("SectorIndex", "secidx", dict(Depth=pick(tier, 4, 5)), inv=["FreshIsRight", "AtWithinNear"], props=["CacheStable"])
    for _ in range(pick(tier, 3, 7)):
        yield sim("SectorIndex", "secidx", dict(Depth=24), pick(tier, 400, 15000), 25, inv=["FreshIsRight", "AtWithinNear"])
    j = sim("SectorIndex", "secidx", dict(Depth=70), pick(tier, 60, 1500), 71, inv=["FreshIsRight", "AtWithinNear"])
    j["consts"]["Mode"] = "many"
    yield j
    yield rec("SectorIndexTrace", "secidx", pick(tier, 120, 1500), consts=dict(Depth=1, Mode="trace"), view="TView")


check("C03", c03,
      must="setsec delsec setvol delvol rebuild lookup par clone swap saveload overlay nooverlay recorded_find recorded_at recorded_near recorded_swap".split(),
      note="Exhaustive over short histories of 2 sectors x 2 volumes, seeded simulation of longer histories over 5 x 5 "
           "with 11 border shapes; every lookup answer of the real index is compared with the specification's. "
           "Bounded histories; concurrent first lookups use real threads (schedules sampled, not enumerated).",
      assumptions=["borders are simple polygons with coordinates exact in binary"])


ESE_INV = ["LastCounts", "ConstraintsSplit", "ProcsAllThere"]


def ese(focus, inv, qd, td, qn, tn, depth=18, ex=True):
    def jobs(tier):
        if ex:
            yield exh("Ese", "ese", dict(Focus=focus, Depth=pick(tier, qd, td)), inv=inv)
        for _ in range(pick(tier, 2, 6)):
            yield sim("Ese", "ese", dict(Focus=focus, Depth=depth), pick(tier, qn, tn), depth + 1, inv=inv + ["EmitI"])
        yield sim("Ese", "ese", dict(Focus="all" if focus == "space" else focus, Depth=2 * depth), pick(tier, qn, tn) // 4, 2 * depth + 1, inv=inv + ["EmitI"])
        if focus == "group":
            j = sim("Ese", "ese", dict(Focus=focus, Depth=60), pick(tier, 40, 1500), 61, inv=["EmitI"])
            j["consts"]["Mode"] = "many"
            yield j
    return jobs


def c04(tier):
    yield exh("Ring", "ring", dict(MaxEdges=4, NV=4), inv=["Right", "EmitI"], props=["Ends_"], ac=None, view=None, nomode=True)
    if tier == "thorough":
        yield exh("Ring", "ring", dict(MaxEdges=5, NV=5), inv=["Right", "EmitI"], ac=None, view=None, nomode=True)
    for nv in pick(tier, (150, 12), (150, 12, 40, 150)):
        j = sim("RingBig", "ring", dict(Depth=16, NV=nv), pick(tier, 150, 1500), 17, inv=["StrokeLaw", "EmitI"], ac=None)
        del j["consts"]["Mode"]
        yield j
    yield from ese("ring", [], 0, 0, 400, 9000, ex=False)(tier)
    yield rec("RingTrace", "ring", pick(tier, 400, 12000))


check("C04", c04, must=["edges", "big", "line", "sector", "recorded_border"],
      note="Every multiset of up to 4 edges over 4 points (thorough: 5 over 5), repeated and zero-length edges included, in shuffled orders, "
           "directions and cuts into lines; TLC shows on the model that the walk ends, whatever it picks, in a loop using every edge once exactly if there is one. "
           "Simulated files with up to 18 or 36 records. Counter-clockwise is compared for borders that do not touch themselves.")
check("C05", ese("group", ["GroupsPartition"], 0, 0, 400, 9000, ex=False), must=["line", "sector"],
      note="Simulated files of border lines and sectors whose owners and conditions coincide often; grouping, the unions of airports and the "
           "ids over repeated loads are compared. Sampled, not exhaustive.")
check("C06", ese("space", ["LastCounts"], 4, 5, 500, 12000), must=["section", "line", "sector", "other", "junk"],
      note="All orders of up to 4 (thorough: 5) records defining, redefining and using border lines; simulated files with all record kinds and sections.")
check("C07", ese("pos", [], 3, 3, 500, 12000), must=["pos"],
      note="All short files over 80 position records; simulated longer ones; every field, squawk range present or not, 0 to 4 visibility points, both in the file's and the adaptation's data.")
check("C08", ese("proc", ["ProcsAllThere"], 3, 4, 500, 12000), must=["proc"],
      note="All files of up to 2 (thorough: 3) procedures over a small set and simulated longer ones; file data and adaptation data compared.")
check("C23", ese("cop", ["ConstraintsSplit"], 3, 4, 500, 12000), must=["cop"],
      note="All files of up to 2 (thorough: 3) agreements over all combinations of levels, kind and one field, simulated longer ones over all fields. Agreements that differ in nothing but levels and description share one constraint, the last.")


LOC_INV = ["ResolvesToOwn", "SectorFileFirst", "ListsAreRecords", "SourcesFirst"]


def locs(focus, qd, td, qn, tn):
    def jobs(tier):
        yield exh("Locations", "locs", dict(Focus=focus, Depth=pick(tier, qd, td)), inv=LOC_INV)
        for n in pick(tier, (10, 25), (10, 15, 25, 40)):
            yield sim("Locations", "locs", dict(Focus=focus, Depth=n), pick(tier, qn, tn), n + 1, inv=LOC_INV + ["EmitI"])
        yield rec("LocationsTrace", "places", pick(tier, 150, 1500), consts=dict(Depth=1, Mode="trace", Focus=focus), view="TView", inv=["ReadsQueries"])
    return jobs


def c13(tier):
    yield from locs("names", 2, 3, 500, 12000)(tier)
    yield exh("Locations", "locs", dict(Focus="coords", Depth=0), inv=["EmitI"])


check("C13", c13, must="vor ndb fix apt rwy nav recorded_query".split(),
      note="All ways of knowing a few names as VOR, NDB, fix, airport and runway (exhaustive to depth 2, thorough 3), simulated data with up to 25 (40) records over "
           "names that can be read in several ways; every digit count, abbreviation, hemisphere and precision combination of coordinate names. Bearing-distance results "
           "are compared with the geodesic of the geo library.")
check("C14", locs("airports", 4, 5, 500, 12000), must="apt rwy nav icao recorded_airports".split(),
      note="All orders and duplications of up to 4 (5) records of two airports in the three sources and the runways, simulated ones over four airports.")
check("C15", locs("member", 3, 4, 500, 12000), must="vor ndb fix apt rwy recorded_member".split(),
      note="All sets of up to 3 (4) navaids, fixes and airports over two names and three places, two of them about a second of arc apart; simulated larger ones; every (name, place) question.")


SCT_INV = ["SegmentsKept", "ReadsBack", "Maximal"]


def sct(domain, focuses, qn, tn, exq=(), depth=30):
    def jobs(tier):
        for f, q, t in exq:
            yield exh("Sct", domain, dict(Focus=f, Depth=pick(tier, q, t)), inv=SCT_INV)
        for f in focuses:
            yield sim("Sct", domain, dict(Focus=f, Depth=depth), pick(tier, qn, tn), depth + 1, inv=SCT_INV + ["EmitI"])
        if tier == "thorough":
            for f in focuses:
                yield sim("Sct", domain, dict(Focus=f, Depth=3 * depth), tn // 4, 3 * depth + 1, inv=SCT_INV + ["EmitI"])
    return jobs


check("C09", sct("sct", ["all", "all", "all"], 700, 15000, exq=[("order", 4, 5)]),
      must="open info rec col broken remark group more".split(),
      note="All orders of up to 4 (5) steps over all 16 sections with a record each, colour definitions in and out of range, broken records and remarks; simulated files "
           "of 30 (90) steps with all record kinds, header, abbreviated coordinates, comments, blank lines, both line ends and encodings.")
check("C10", sct("sct", ["lines", "lines"], 700, 15000, exq=[("lines", 4, 5)]), must="open group more".split(),
      note="All groups of up to 4 (5) lines over three places and two colours; simulated ones over 17 places in mixed coordinate and fix form, with names that look like "
           "places. TLC shows on the model that every segment is kept once, in order and colour, and that lines are joined as far as possible.")
check("C11", sct("sctw", ["all", "all", "lines"], 700, 15000, exq=[("order", 3, 4), ("lines", 4, 5)]),
      must="open info rec col group more".split(),
      note="Every file of C09 and C10 is read, written, read and written again; data must agree with the specification and the texts with each other. "
           "TLC shows on the model that writing segment by segment and joining again is the identity.")
def c16(tier):
    yield from sct("items", ["air", "air"], 700, 15000, depth=24)(tier)
    yield exh("AirLong", "airlong", dict(Depth=pick(tier, 2, 3), Most=3), inv=["AllThere"], props=["Grow"])
    yield sim("AirLong", "airlong", dict(Depth=12, Most=pick(tier, 2500, 20000)), pick(tier, 12, 300), 13, inv=["AllThere", "EmitI"])


check("C16", c16, must="open rec piece".split(),
      note="Simulated lists of high and low airway segments (chained, reversed, closed, branching, doubled, of no length, over unknown fixes): the drawn lines must show "
           "exactly the recorded segments, none more often than recorded, and records that run on must be one line. How branching airways are cut into lines is left open.")
check("C17", sct("items", ["draw", "draw", "draw"], 600, 12000, depth=28), must="open group more col ts sym coop rec".split(),
      note="Simulated combinations of line groups of all six kinds, colour names, definitions in sector file, plugin (both variants' built-ins) and symbology, "
           "known and unknown fixes; all drawn lines, the whole colour tables and all labels and regions are compared.")


def c12(tier):
    yield exh("Dms", "dms", dict(Depth=4), inv=["Normal", "Close"], props=["Stable"], view=None)
    for _ in range(pick(tier, 2, 6)):
        yield sim("Dms", "dms", dict(Depth=20), pick(tier, 1500, 40000), 21, inv=["Normal", "Close", "EmitI"])


check("C12", c12, must="set write read given".split(),
      note="Every combination of 16 degree, 4 minute, 3 second, 4 millisecond and 5 sub-millisecond values at the boundaries, both hemispheres and axes (15360 positions), "
           "and simulated ones; written text must be the specification's to the character and read back, through three parsers, to its position. Exact ties of rounding are left out.")


def display(exf, simf, qd, td, qn, tn):
    def jobs(tier):
        yield exh("Display", "display", dict(Focus=exf, Depth=pick(tier, qd, td)), inv=["StylesStay"], props=["Own", "StylesKept"])
        for _ in range(pick(tier, 2, 5)):
            yield sim("Display", "display", dict(Focus=simf, Depth=24), pick(tier, qn, tn), 25, inv=["StylesStay", "EmitI"])
    return jobs


check("C18", display("source", "rules", 2, 3, 400, 10000), must="tsym msym esym".split(),
      note="Every pair (triple) of definitions over nine symbols and three sources, simulated files of 24 symbols with every kind of drawing rule in all spellings; "
           "all nine symbols and all symbols by name are compared rule by rule.")
check("C19", display("style", "style", 3, 4, 500, 12000), must="style".split(),
      note="Every sequence of up to 3 (4) definitions over nine spellings of six names and five patterns, simulated ones of 24; the whole table is compared.")
check("C31", display("item", "item", 2, 2, 600, 15000), must="item set".split(),
      note="Every pair of items and settings over 16 items and four settings with nine values, well-formed or not; simulated files of 24.")


MAP_INV = ["NoneLost", "Conditions"]


def maps(exf, simfs, qd, td, qn, tn, depth=36):
    def jobs(tier):
        yield exh("Maps", "maps", dict(Focus=exf, Depth=pick(tier, qd, td)), inv=MAP_INV, props=["LaterChangesNothing"])
        for f in simfs:
            yield sim("Maps", "maps", dict(Focus=f, Depth=depth), pick(tier, qn, tn), depth + 1, inv=MAP_INV + ["EmitI"])
        if exf == "folder":
            yield sim("Maps", "maps", dict(Focus="many", Depth=100), pick(tier, 60, 1500), 101, inv=MAP_INV + ["EmitI"])
        if tier == "thorough":
            yield sim("Maps", "maps", dict(Focus=simfs[0], Depth=3 * depth), tn // 4, 3 * depth + 1, inv=MAP_INV + ["EmitI"])
    return jobs


check("C20", maps("style", ["style", "style"], 4, 5, 400, 9000),
      must="map col size layer zoom asr style nothing line sym text coord poly cline".split(),
      note="Every sequence of up to 4 (5) settings and drawing commands over a small set, simulated files of 36 (108) with every setting, element and form of place; "
           "every drawn element is compared with the settings it carries, per kind, in order. Symbol and text alignment, circles and font styles are documented as unimplemented and left out.")
check("C21", maps("folder", ["folder", "style"], 4, 5, 400, 9000), must="map col folder hidden over".split(),
      note="Every list of up to 4 (5) maps over three names that look like numbered ones and three folders, with and without an override; simulated longer ones.")
check("C22", maps("active", ["active", "active"], 3, 4, 400, 9000), must="active and".split(),
      note="Every condition over every combination of absent, single and multiple arguments, alone and (thorough) in pairs; simulated lists of up to 30 conditions. Schedules keep only their kind (documented).")


def timing(tier):
    yield exh("Timing", "timing", dict(Depth=pick(tier, 2, 3)), inv=["OwnHolds", "Others"], props=["Apart"])
    for n in pick(tier, (10, 20), (10, 20, 40)):
        yield sim("Timing", "timing", dict(Depth=n), pick(tier, 300, 6000), n + 1, inv=["OwnHolds", "Others", "EmitI"])


check("C24", timing, must="glob fir del merge reload".split(),
      note="Every history of up to 2 (3) changes over two partners, all subsets of times and two values, simulated longer ones over six partners, some applied as overlays, with "
           "saving and loading between; every partner, known or not, with six agreements is asked after each.")


def squawks(tier):
    yield exh("Squawks", "squawks", dict(Depth=pick(tier, 1, 2)), inv=["Distinct"], props=["Only"])
    yield exh("Squawks", "squawks", dict(Depth=2), inv=["Distinct"], props=["Only"])
    for n in pick(tier, (6, 12), (6, 12, 24)):
        yield sim("Squawks", "squawks", dict(Depth=n), pick(tier, 400, 9000), n + 1, inv=["Distinct", "EmitI"])


check("C25", squawks, must="one span neither both".split(),
      note="Every list of two entries over single codes in every spelling, ranges at the boundaries of octal digits, reversed ranges, entries with neither or both forms and non-octal ones; "
           "simulated lists of up to 24. Codes of more than four digits are left out.")


def lists(tier):
    for f in ("aircraft", "airlines", "airports", "navdata", "isec"):
        yield exh("Lists", "lists", dict(Focus=f, Depth=pick(tier, 2, 3)), inv=["OnePerKey"], props=["FirstStays"])
        yield sim("Lists", "lists", dict(Focus=f, Depth=18), pick(tier, 250, 6000), 19, inv=["OnePerKey", "EmitI"])


check("C28", lists, must="rec junk".split(),
      note="Every aircraft type code (2205 combinations), every list of up to 2 (3) records with empty and given fields and equal or different keys; simulated lists of 18 with comments, "
           "blank lines, names that run on, both line ends and encodings. Fields that begin with a comment sign or a space are left out.")


def asr(tier):
    yield exh("Asr", "asr", dict(Depth=2), props=["Own", "Settled"])
    for n in pick(tier, (16, 40), (16, 40, 80)):
        yield sim("Asr", "asr", dict(Depth=n), pick(tier, 400, 9000), n + 1, inv=["EmitI"])


check("C29", asr, must="set area plugin show ext".split(),
      note="Every pair of lines over every value of 18 settings, the shown area, plugin settings and 16 kinds of elements with everything that can be shown of them; simulated files "
           "of up to 40 (80) lines with comments, blank lines, both line ends, encodings and coordinate forms. Values that begin with a comment sign are left out.")


def prf(tier):
    yield exh("Prf", "prf", dict(Depth=pick(tier, 2, 3)), inv=["Needed"], props=["Own"])
    for n in pick(tier, (12, 30), (12, 30, 60)):
        yield sim("Prf", "prf", dict(Depth=n), pick(tier, 400, 9000), n + 1, inv=["Needed", "EmitI"])


check("C27", prf, must=["set"],
      note="Every list of up to 2 (3) further lines over the settings that lead to files, in and outside the profile's folder, with and without ending; simulated profiles of up to 30 (60) lines "
           "with blank lines, both line ends and encodings, each read four times under different spellings of its path. Empty values and network paths (two backslashes) are left out.")


def load(tier):
    yield exh("Load", "load", dict(Depth=pick(tier, 1, 2)), inv=["Ways"], props=["Optional", "Unread", "Loading"])
    for n in pick(tier, (12, 40), (6, 12, 40, 80)):
        yield sim("Load", "load", dict(Depth=n), pick(tier, 400, 3000), n + 1, inv=["Ways", "EmitI"])


check("C32", load, must="put point prf toml ovs recent load".split(),
      note="Every (pair of) change(s) to a complete profile of 12 files in two places - a file missing, unreadable as such, a folder in its place, another version, a setting missing or leading "
           "elsewhere, profile and list missing or broken, overlays listed, recent display files - loaded in all three ways; simulated histories of up to 40 (80) changes with loads in between in one process.")


def overlay(tier):
    yield exh("Overlay", "overlay", dict(Depth=pick(tier, 3, 4)), inv=["Final"], props=["Own"])
    for n in pick(tier, (12, 25), (12, 25, 50)):
        yield sim("Overlay", "overlay", dict(Depth=n), pick(tier, 200, 2000), n + 1, inv=["Final", "EmitI"])


check("C26", overlay, must="edit file again call none fail save".split(),
      note="Every history of up to 3 (4) edits, file and call boundaries, failing overlays of 20 kinds, saving and loading over 42 edits of settings, colours, positions, line styles, constraints, airlines, files, volumes and sectors; "
           "simulated histories of up to 25 (50) steps with values that refer to what was there before or will be in the end. Every field of the adaptation but navigation data and definitions is compared, "
           "and the airspace looked up, after every history. Navigation data are compared as a whole with what they were; decimal numbers to within their last digit, and jsonnet's standard library is not available to overlays.")


def faults(tier):
    yield exh("Faults", "faults", dict(Depth=1, Focus="all"), inv=["Known"], props=["Local"])
    for n in pick(tier, (2, 4), (2, 4, 8, 16)):
        yield sim("Faults", "faults", dict(Depth=n, Focus="all"), pick(tier, 8000, 60000), n + 1, inv=["Known", "EmitI"])


check("C30", faults, must="asis field remove twice cut cutall from drop double move join many insert foreign clear".split(),
      note="Files of all 20 kinds, each with every kind of record: every field and separator replaced by each of 90 texts (numbers beyond every range, digits and letters beyond ASCII, broken bytes, "
           "keywords, separators), lost, doubled, cut after, every line lost, doubled, moved, joined, repeated 2000 times; simulated combinations of up to 4 (16) such faults and lines of other files. "
           "Each file is read on its own and as part of a whole profile, and whatever loads is asked everything. Overlays are programs: ones that do not end or are nested thousands deep are left out.")

# quick runs that are cheap simulate more
MORE = dict(C02=2, C05=2, C06=4, C07=4, C10=2, C11=2, C12=3, C13=2, C14=2, C15=2, C16=4, C17=3, C18=2, C19=2, C20=4, C21=2, C22=4, C23=2, C24=3, C25=2,
            C27=4, C28=2, C29=4, C31=4, C32=3)
