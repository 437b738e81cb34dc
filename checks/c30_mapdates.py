"""C30: files are put in the order of their times, and gaps are found"""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import caltime as C
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

CALS = ["noleap", "noleap", "standard", "gregorian", "360_day", "365_day", "proleptic_gregorian", "all_leap", None]
NAMES = ["a.nc", "b.nc", "tas_2000.nc", "z.nc", "c1.nc", "A.nc"]
DEFECTS = [None, None, None, "inside", "file", "first", "last", "twice", "overlap", "shift", "year", "sparse"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["hours", "days", "mon", "mon", "year"]))
    n = draw(st.integers(1, 5))
    counts = draw(st.lists(st.integers(3, 14 if kind == "mon" else 6), min_size=n, max_size=n))
    order = list(draw(st.permutations(range(n))))
    return {"kind": kind, "step": draw(st.sampled_from([1, 3, 6, 12] if kind == "hours" else [1, 1, 5, 10])),
            "cal": draw(st.sampled_from(CALS)), "year": draw(st.integers(1600, 2150)), "month": draw(st.integers(1, 12)),
            "day": draw(st.integers(1, 28)), "hour": draw(st.sampled_from([0, 0, 6, 12])),
            "at": draw(st.sampled_from(["begin", "middle", "day"])), "bounds": draw(st.booleans()),
            "counts": counts, "order": order, "names": list(draw(st.permutations(NAMES)))[:n],
            "units": draw(st.lists(st.tuples(st.sampled_from(["days", "days", "hours", "minutes", "seconds"]),
                                             st.sampled_from(["1600-01-01", "1850-01-01", "1999-07-15", "2000-02-28 06:00:00", "1850-01-01 00:00:00"])),
                                   min_size=n, max_size=n)),
            "oneunit": draw(st.booleans()), "defect": draw(st.sampled_from(DEFECTS)), "where": [draw(st.integers(0, 20)), draw(st.integers(0, 20))],
            "dims": draw(st.booleans()), "align": draw(st.sampled_from([True, True, True, False]))}


def moment(c, k, cal):
    """begin of interval k and the time that stands for it, in days since year one"""
    if c["kind"] in ("hours", "days"):
        b = C.days(c["year"], c["month"], c["day"], cal) + c["hour"] / 24.0 + k * c["step"] / (24.0 if c["kind"] == "hours" else 1.0)
        e = b + c["step"] / (24.0 if c["kind"] == "hours" else 1.0)
        return b, b if c["at"] == "begin" else (b + e) / 2
    if c["kind"] == "mon":
        m = c["year"] * 12 + c["month"] - 1 + k
        b, e = (float(C.days(x // 12, x % 12 + 1, 1, cal)) for x in (m, m + 1))
        d = {"begin": b, "middle": (b + e) / 2, "day": b + c["day"] - 1 + c["hour"] / 24.0}
        return b, d[c["at"]]
    y = c["year"] + k
    b, e = (float(C.days(x, 1, 1, cal)) for x in (y, y + 1))
    return b, {"begin": b, "middle": (b + e) / 2, "day": C.days(y, c["month"], c["day"], cal) + c["hour"] / 24.0}[c["at"]]


def run(c, stt):
    from netCDF4 import Dataset
    from pyconform import mapdates

    cal = c["cal"] or "standard"
    files, k = [], 0
    for n in c["counts"]:
        files.append(list(range(k, k + n)))
        k += n
    i, j = c["where"][0] % len(files), c["where"][1]
    one = len(files) == 1
    d = c["defect"]
    if d == "inside":
        files[i].pop(1 + j % (len(files[i]) - 2))
    elif d == "file":
        if len(files) < 3:
            raise Discard("needs three files")
        i = 1 + i % (len(files) - 2)
        files[i] = [-1000]
    elif d == "first" and not one:
        files[max(i, 1)].pop(0)
    elif d == "last" and not one:
        files[min(i, len(files) - 2)].pop()
    elif d == "twice" and not one:
        files[i] = list(files[i - 1] if i else files[1])
    elif d == "overlap" and not one:
        i = max(i, 1)
        files[i] = [files[i][0] - 1] + files[i]
    elif d == "shift" and not one:
        files[i:] = [[x + 1 for x in f] for f in files[i:]] if i else files[i:]
    elif d == "year" and c["kind"] in ("mon", "days", "hours"):
        y = 12 if c["kind"] == "mon" else 365
        files[i] = files[i][:2] + [x + y for x in files[i][2:]]
        files[i + 1:] = [[x + y for x in f] for f in files[i + 1:]]
    elif d == "sparse" and not one and len(files[i]) > 4:
        # a file with times of another step
        files[i] = files[i][::2]
    keep = [n for n, f in enumerate(files) if f != [-1000]]
    if any(len(files[n]) < 3 for n in keep):
        raise Discard("fewer than three times")
    for n in keep:
        steps = {b - a for a, b in zip(files[n], files[n][1:])}
        if len(steps) == 1 and steps != {1} and len(keep) == 1:
            raise Discard("another step")
    ks = [x for n in sorted(keep, key=lambda n: files[n]) for x in files[n]]
    gaps = ks != list(range(ks[0], ks[0] + len(ks)))
    inside = any(files[n] != list(range(files[n][0], files[n][0] + len(files[n]))) for n in keep)
    with W.scratch() as root:
        paths = {}
        for n in keep:
            unit, ref = c["units"][0 if c["oneunit"] else n]
            u = "{} since {}".format(unit, ref)
            y, m, dd, sec = C.parse_ref(ref)
            per = 86400.0 / C.SECONDS[unit]
            conv = lambda t: round((t - C.days(y, m, dd, cal) - sec / 86400.0) * per, 6)
            paths[n] = os.path.join(root, c["names"][n])
            with Dataset(paths[n], "w") as nc:
                nc.createDimension("time", None)
                nc.createDimension("nb", 2)
                t = nc.createVariable("time", "f8", ("time",))
                t.units = u
                if c["cal"]:
                    t.calendar = c["cal"]
                t[:] = [conv(moment(c, x, cal)[1]) for x in files[n]]
                if c["bounds"]:
                    t.bounds = "time_bnds"
                    nc.createVariable("time_bnds", "f8", ("time", "nb"))[:] = [[conv(moment(c, x, cal)[0]), conv(moment(c, x + 1, cal)[0])] for x in files[n]]
        order = [n for n in c["order"] if n in paths]
        got, counts, error = mapdates.get_files_in_order([paths[n] for n in order], **({} if c.get("align", True) else {"alignment": False}))
    what = "{} files of {}{}, calendar {}, {}: intervals {}".format(
        len(order), c["step"] if c["kind"] in ("hours", "days") else "", c["kind"], c["cal"],
        "bounds" if c["bounds"] else c["at"], [files[n] for n in order])
    if not c.get("align", True):
        # (gaps in files are not looked for)
        what += ", alignment not checked"
        stt.event("alignment=False")
    if c.get("align", True) or not inside:
        check(error == (1 if gaps else 0), "{}: error {} instead of {}", what, error, 1 if gaps else 0)
    if not inside and d != "twice":
        want = sorted(keep, key=lambda n: files[n])
        check(list(got) == [c["names"][n] for n in want], "{}: order {} instead of {}", what, got, [c["names"][n] for n in want])
        check(list(counts) == [len(files[n]) for n in want], "{}: counts {}", what, counts)
    elif d == "twice":
        check(sorted(got) == sorted(c["names"][n] for n in keep), "{}: files {}", what, got)
    stt.event("gaps" if gaps else "contiguous")
    stt.event(c["kind"])
    if len(keep) > 1:
        stt.nt()


PROP = Prop(
    "C30",
    [Sub("order", cases, run, quick=1500)],
    rule="1-5 files of 3-14 times, given in any order: hours, days and multiples, months and years (their beginnings, middles or any day "
    "or time), with or without bounds, 7 calendars, different units and reference dates; with times or files missing inside, "
    "at the ends and between, doubled, or a year later, with files of a longer step, with gaps in files looked for or not: order, counts and error compared with the generated "
    "intervals; non-trivial: more than one file",
)
