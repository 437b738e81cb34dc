"""C19: dates in file names are the first and last time of the data"""
import os
import warnings

from hypothesis import strategies as st

from pbt import caltime as T
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

UNITS = ["days", "hours", "seconds", "minutes"]
MODERN = ["1850-01-01", "2000-02-28 12:00:00", "1999-12-30 21:00:00", "1601-01-01"]
ANY = MODERN + ["0001-01-01", "0850-03-01"]
CALS = ["noleap", "standard", "360_day", "all_leap", "proleptic_gregorian", "gregorian", "365_day"]
CONST = ("noleap", "360_day", "all_leap", "365_day")
CODES = ["%Y", "%Y%m", "%Y%m%d", "%Y%m%d%H", "%Y%m%d%H%M%S", "%m%d", "%Y_%m", "%YT%H", "y%Y", "%d%m%Y", "%Y%j", "%y%m", "%H%M"]
BROKEN = ["{%Y-%m", "{%Y}", "{%Y-%m-%d}", "a{%Y-%Y}{%m"]


@st.composite
def cases(draw):
    cal = draw(st.sampled_from(CALS))
    refs = ANY if cal in CONST else MODERN
    n = draw(st.integers(1, 4))
    vals = [draw(st.integers(0, 8 * 4000))]
    for _ in range(n - 1):
        vals.append(vals[-1] + draw(st.sampled_from([1, 8, 8 * 30, 8 * 31, 8 * 365, 3])))
    if draw(st.integers(0, 7)) == 0:
        vals = vals[::-1]
    iu = draw(st.sampled_from(UNITS))
    per = 10800.0 / T.SECONDS[iu]
    iunits = iu + " since " + draw(st.sampled_from(refs))
    ou = draw(st.sampled_from([None, iunits, "?", "days since ?", "days since " + draw(st.sampled_from(refs)),
                               draw(st.sampled_from(UNITS)) + " since " + draw(st.sampled_from(refs))]))
    c = {"cal": cal, "vals": [v * per for v in vals], "iunits": iunits, "ounits": ou,
         "unl": draw(st.booleans()), "name": draw(st.sampled_from(["time", "time1", "t", "tt", "_t", "when"])),
         "attrs": {}, "explicit": False, "n": n}
    how = draw(st.sampled_from(["units", "axis", "standard_name", "explicit", "explicit", "none"]))
    c["how"] = how
    if how == "axis":
        c["attrs"]["axis"] = "T"
    elif how == "standard_name":
        c["attrs"]["standard_name"] = "time"
    elif how == "explicit":
        c["explicit"] = True
    if c["name"] == "_t":
        c["explicit"] = True
    if c["how"] == "units" and c["ounits"] is None and not c["explicit"] and not c["name"].startswith("time"):
        c["ounits"] = "?"
    if draw(st.booleans()):
        c["attrs"]["calendar"] = cal
    # other time variables, that are not to be used
    c["other"] = draw(st.booleans()) and (c["explicit"] or c["name"] == "time")
    parts = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 0]))):
        parts.append([draw(st.sampled_from(CODES)), draw(st.sampled_from(CODES))])
        if draw(st.booleans()):
            parts[-1][1] = parts[-1][0]
    c["parts"] = parts
    c["prefix"] = draw(st.sampled_from(["tas_", "", "a-b.", "x{}".replace("{}", "")]))
    c["broken"] = draw(st.sampled_from([None] * 12 + BROKEN))
    c["chunk"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["again"] = draw(st.integers(0, 3)) == 0
    c["suffix"] = draw(st.sampled_from([".nc", "_end.nc", "-1.nc"]))
    c["sub"] = draw(st.booleans())
    # bounds of the times, in units of time as well, before or after them
    c["bounds"] = draw(st.sampled_from([None, None, "before", "after"]))
    # the order the times are asked for in
    if draw(st.integers(0, 2)) == 0 and how != "none":
        c["attrs"]["axis"] = "T"
        c["attrs"]["direction"] = draw(st.sampled_from(["increasing", "decreasing"]))
    return c


def fmt(code, d, cal):
    y, m, dd, h, mi, s = d
    day = 1 + T.days(y, m, dd, cal) - T.days(y, 1, 1, cal)
    for k, v in (("%Y", "%04d" % y), ("%m", "%02d" % m), ("%d", "%02d" % dd), ("%H", "%02d" % h),
                 ("%M", "%02d" % mi), ("%S", "%02d" % s), ("%y", "%02d" % (y % 100)), ("%j", "%03d" % day)):
        code = code.replace(k, v)
    return code


def run(c, stt):
    none = c["how"] == "none" and c["name"] != "_t"
    name = "y" if none else c["name"]
    w = {"dims": [["t", c["n"], c["unl"]]], "dmap": {"t": "td"}, "nfiles": 1, "exec": {},
         "invars": [{"name": "ct", "dims": ["t"], "dtype": "f8", "data": c["vals"], "mask": None,
                     "units": None if none else c["iunits"], "pos": None,
                     "cal": None if none else c["cal"], "files": [0]},
                    {"name": "v", "dims": ["t"], "dtype": "f8", "data": [1.0] * c["n"], "mask": None,
                     "units": "m", "pos": None, "cal": None, "files": [0]}]}
    attrs = dict(c["attrs"])
    if none:
        attrs = {}
    else:
        if c["ounits"] is not None:
            attrs["units"] = c["ounits"]
    base = c["prefix"] + "_".join("{%s-%s}" % tuple(p) for p in c["parts"]) + c["suffix"]
    if c.get("broken"):
        base = c["prefix"] + c["broken"] + c["suffix"]
    if c["sub"]:
        base = "sub/" + base
    f = {"filename": base, "metavars": [name]}
    if c["explicit"] and not none:
        f["autoparse_time_variable"] = name
    w["outvars"] = [
        {"name": "a0", "dims": ["td"], "datatype": "double", "attrs": {}, "text": "v", "file": f},
        {"name": name, "dims": ["td"], "datatype": "double", "attrs": attrs, "text": "ct", "file": None},
    ]
    if c["other"] and not none:
        f["metavars"] = ["other", name]
        w["outvars"].insert(0, {"name": "other", "dims": ["td"], "datatype": "double",
                                "attrs": {"units": "days since 1700-01-01", "calendar": c["cal"]},
                                "text": "cu", "file": None})
        w["invars"].append({"name": "cu", "dims": ["t"], "dtype": "f8",
                            "data": [v + 2e8 / T.SECONDS[c["iunits"].split()[0]] for v in c["vals"]],
                            "mask": None, "units": c["iunits"], "pos": None, "cal": c["cal"], "files": [0]})
        stt.event("another time variable")
    if c.get("bounds") and not none:
        w["dims"].append(["b", 2, False])
        w["dmap"]["b"] = "bd"
        k = 0 if c["bounds"] == "before" else len(w["outvars"])
        w["outvars"].insert(k, {"name": "bnds", "dims": ["td", "bd"], "datatype": "double",
                                "attrs": {"units": c["iunits"], "calendar": c["cal"]}, "text": "cb", "file": None})
        f["metavars"] = ["bnds"] * (not k) + f["metavars"] + ["bnds"] * bool(k)
        shift = 86400.0 / T.SECONDS[c["iunits"].split()[0]]
        w["invars"].append({"name": "cb", "dims": ["t", "b"], "dtype": "f8",
                            "data": [x for v in c["vals"] for x in (v + 40 * shift, v + 70 * shift)], "mask": None,
                            "units": c["iunits"], "pos": None, "cal": c["cal"], "files": [0]})
        stt.event("bounds " + c["bounds"])
    first, last = 0, -1
    if "direction" in attrs and len(c["vals"]) > 1 and name != "_t":
        # (hidden coordinates turn nothing)
        if (c["vals"][-1] > c["vals"][0]) != (attrs["direction"] == "increasing"):
            first, last = -1, 0
            stt.event("times in reverse order")
    with W.scratch() as root:
        W.write_inputs(w, root)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                flow = W.make_flow(w, root, out=os.path.join(root, "out"))
            except Exception:
                if c.get("broken") and not none:
                    stt.nt()
                    stt.event("malformed range")
                    return
                raise
        check(none or not c.get("broken"), "a file named {!r} was planned", base)
        if c.get("chunk"):
            w["exec"]["chunks"] = [["td", c["chunk"]]]
        W.execute(w, root, flow=flow)
        if c.get("again"):
            w["exec"]["chunks"] = []
            W.execute(w, root, flow=flow)
        got = []
        for d, _, fs in os.walk(os.path.join(root, "out")):
            got += [os.path.relpath(os.path.join(d, x), os.path.join(root, "out")) for x in fs]
        if none:
            want = base
            said = any("time variable" in str(x.message) for x in ws)
            check(said == ("{" in base), "file name {!r} without a time variable: warnings {}", base,
                  [str(x.message) for x in ws])
            if c["parts"]:
                stt.event("no time variable")
        else:
            d1 = T.date(c["vals"][first], c["iunits"], c["cal"])
            d2 = T.date(c["vals"][last], c["iunits"], c["cal"])
            want = c["prefix"] + "_".join(fmt(a, d1, c["cal"]) + "-" + fmt(b, d2, c["cal"]) for a, b in c["parts"]) + c["suffix"]
            if c["sub"]:
                want = "sub/" + want
            if c["parts"]:
                stt.nt()
                stt.event(c["cal"])
                if c["ounits"] not in (None, c["iunits"]):
                    stt.event("other units in the output")
        check(got == [want], "times {} {} (calendar {}), written in {}, file name {!r}: files {} instead of {}",
              c["vals"], c["iunits"], c["cal"], [c["ounits"], attrs], base, got, [want])
        x = W.read_file(os.path.join(root, "out", want))
        check("a0" in x["vars"], "{} holds {}", want, sorted(x["vars"]))


@st.composite
def same_cases(draw):
    cal = draw(st.sampled_from(["noleap", "360_day", "standard"]))
    c = {"cal": cal, "vals": [draw(st.integers(0, 4000))], "ref": draw(st.sampled_from(MODERN))}
    c["vals"].append(c["vals"][0] + draw(st.integers(1, 800)))
    # (name, whether as it is resolved)
    pool = [[n, k] for n in ("a_{%Y-%Y}.nc", "{a_%Y-%Y}.nc", "a_{%Y%m-%Y}.nc", "b_{%Y-%Y}.nc", "a_{%Y-%Y%m}.nc") for k in (False, True)]
    c["files"] = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=4, unique_by=lambda x: tuple(x)))
    return c


def run_same(c, stt):
    d1, d2 = (T.date(float(v), "days since " + c["ref"], c["cal"]) for v in c["vals"])

    def resolved(n):
        a, b = n[n.index("{") + 1:n.index("}")].split("-")
        return n[:n.index("{")] + fmt(a, d1, c["cal"]) + "-" + fmt(b, d2, c["cal"]) + n[n.index("}") + 1:]

    names = [resolved(n) if k else n for n, k in c["files"]]
    if len(set(names)) < len(names):
        raise Discard("two owners of a file")
    want = [resolved(n) for n, k in c["files"]]
    w = {"dims": [["t", 2, True]], "dmap": {"t": "td"}, "nfiles": 1, "exec": {},
         "invars": [{"name": "time", "dims": ["t"], "dtype": "f8", "data": [float(v) for v in c["vals"]], "mask": None,
                     "units": "days since " + c["ref"], "pos": None, "cal": c["cal"], "files": [0]},
                    {"name": "v", "dims": ["t"], "dtype": "f8", "data": [1.0, 2.0], "mask": None,
                     "units": "m", "pos": None, "cal": None, "files": [0]}]}
    w["outvars"] = [{"name": "time", "dims": ["td"], "datatype": "double", "attrs": {"units": "?"}, "text": "time", "file": None}]
    for k, n in enumerate(names):
        w["outvars"].append({"name": "a%d" % k, "dims": ["td"], "datatype": "double", "attrs": {}, "text": "v",
                             "file": {"filename": n, "metavars": ["time"]}})
    with W.scratch() as root:
        W.write_inputs(w, root)
        out = os.path.join(root, "out")
        same = len(set(want)) < len(want)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                flow = W.make_flow(w, root, out=out)
                W.execute(w, root, flow=flow)
            except ValueError:
                if same:
                    check(not os.path.exists(out) or not os.listdir(out), "files {}: refused, but {} are there", names, want)
                    stt.nt()
                    stt.event("the same name twice")
                    return
                raise
        check(not same, "files {} are all {}: not refused", names, want)
        got = sorted(os.listdir(out))
        check(got == sorted(want), "files {}: {} instead of {}", names, got, sorted(want))
        for k, n in enumerate(want):
            x = W.read_file(os.path.join(out, n))
            check("a%d" % k in x["vars"], "{} holds {}", n, sorted(x["vars"]))
        stt.nt()


PROP = Prop(
    "C19",
    [Sub("filename", cases, run, quick=2500), Sub("same", same_cases, run_same, quick=250)],
    rule="time axes of 1-4 times in 7 calendars, any units and reference dates (converted or inherited "
    "in the output), time variables recognised by name, units, axis, standard name or named explicitly "
    "(also hidden ones), times asked for in a direction, bounds of times, other time variables in the file; 0-2 date ranges of 13 formats in the name, or malformed ones, which are refused; executed in chunks of times and again; 2-4 files whose names may become the same: refused; "
    "dates computed with own calendar arithmetic; non-trivial: a range in the name and a time variable",
    assumptions=["times are multiples of three hours", "dates before 1600 only in calendars of constant year length"],
)
