"""C05: units, time references and calendars are converted, inherited or refused"""
import os
import warnings

import numpy as np
from cf_units import Unit
from hypothesis import strategies as st

from pbt import caltime as T
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

# unit: (family, factor, offset), value in base units = value * factor + offset
TABLE = {
    "m": ("length", 1.0, 0.0), "cm": ("length", 0.01, 0.0), "km": ("length", 1000.0, 0.0),
    "mm": ("length", 0.001, 0.0), "kg m-2": ("mass", 1.0, 0.0), "g cm-2": ("mass", 10.0, 0.0),
    "K": ("temp", 1.0, 0.0), "degC": ("temp", 1.0, 273.15), "degF": ("temp", 5 / 9.0, 459.67 * 5 / 9),
    "W m-2": ("flux", 1.0, 0.0), "kW m-2": ("flux", 1e3, 0.0), "J s-1 cm-2": ("flux", 1e4, 0.0),
    "1": ("none", 1.0, 0.0), "%": ("none", 0.01, 0.0), "1e-3": ("none", 1e-3, 0.0),
    "Pa": ("press", 1.0, 0.0), "hPa": ("press", 100.0, 0.0), "mbar": ("press", 100.0, 0.0),
    "kg m-2 s-1": ("rate", 1.0, 0.0), "g m-2 day-1": ("rate", 1e-3 / 86400, 0.0),
    "s": ("time", 1.0, 0.0), "days": ("time", 86400.0, 0.0), "hours": ("time", 3600.0, 0.0),
    "mol": ("mol", 1.0, 0.0), "m s-1": ("speed", 1.0, 0.0), "km h-1": ("speed", 1 / 3.6, 0.0),
    "degrees_north": ("none", np.pi / 180, 0.0), "radians": ("none", 1.0, 0.0),
}
CALS = ["noleap", "365_day", "standard", "gregorian", "360_day", "proleptic_gregorian"]
TU = ["days", "hours", "seconds", "minutes"]
REFS = ["1850-01-01", "1850-01-01 00:00:00", "1990-7-1", "2000-02-28 06:30:00", "1999-12-30 12:00"]
OLDREFS = ["0001-01-01 00:00:00", "1-1-1", "0100-03-01"]
BLANK = ["", "?", "unknown"]


@st.composite
def in_var(draw, n):
    v = {"data": [draw(st.integers(-40, 4000)) / draw(st.sampled_from([1.0, 4.0, 7.0])) for _ in range(n)],
         "mask": [draw(st.integers(0, 5)) == 0 for _ in range(n)], "dtype": "f8", "cal": None}
    kind = draw(st.sampled_from(["time", "time", "plain", "plain", "plain", "none", "bogus"]))
    v["kind"] = kind
    if kind == "time":
        v["cal"] = draw(st.sampled_from(CALS + [None]))
        refs = REFS + (OLDREFS if v["cal"] in ("noleap", "365_day", "360_day") else [])
        v["units"] = draw(st.sampled_from(TU)) + " since " + draw(st.sampled_from(refs))
        # (large times have more digits than a 4-byte float)
        late = draw(st.sampled_from([0.0, 0.0, 51134 + 3 / 1024.])) * {"days": 1, "hours": 24, "minutes": 1440, "seconds": 86400}[v["units"].split()[0]]
        v["data"] = [int(abs(x) * 4) / 4.0 + late for x in v["data"]]
    elif kind == "plain":
        v["units"] = draw(st.sampled_from(sorted(TABLE)))
        if draw(st.integers(0, 3)) == 0:
            v["dtype"] = "i4"
            v["data"] = [int(x) for x in v["data"]]
    else:
        v["units"] = None if kind == "none" else "bogus_units"
    return v


@st.composite
def out_var(draw, v, k):
    o = {"from": k, "dtype": "double", "cal": None, "scalar": draw(st.integers(0, 7)) == 0}
    if v["kind"] == "time":
        refs = REFS + (OLDREFS if v["cal"] in ("noleap", "365_day", "360_day") else [])
        u = draw(st.sampled_from(TU + TU + BLANK))
        r = draw(st.sampled_from(refs + BLANK))
        form = draw(st.integers(0, 9))
        o["units"] = u + " since " + r
        if form == 0:
            o["units"] = u
        elif form == 1:
            o["units"] = None
        elif form == 2:
            o["units"] = draw(st.sampled_from(["m", "K", "1"]))
        o["dtype"] = draw(st.sampled_from(["double", "double", "float"]))
        cal = draw(st.integers(0, 5))
        if cal == 0:
            o["cal"] = draw(st.sampled_from(CALS))
        elif cal < 3:
            o["cal"] = v["cal"] or "standard"
    else:
        fam = TABLE[v["units"] if v["kind"] == "plain" else "1"][0]
        same = [u for u in sorted(TABLE) if TABLE[u][0] == fam]
        o["units"] = draw(st.sampled_from(same + same + BLANK + [None] + sorted(TABLE)))
        o["dtype"] = draw(st.sampled_from(["double", "double", "float"]))
        if draw(st.integers(0, 15)) == 0:
            o["units"] = "days since 1850-01-01"
    return o


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    ins = draw(st.lists(in_var(n), min_size=1, max_size=3))
    outs = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(ins) - 1))
        outs.append(draw(out_var(ins[k], k)))
    return {"n": n, "ins": ins, "outs": outs}


class Refused(Exception):
    pass


def blank(s):
    return s.strip() in BLANK


def expect(v, o):
    """(values, units text or None, calendar or None); raises Refused"""
    if v["kind"] == "time":
        cal = T.ALIAS[v["cal"] or "standard"]
        if o["units"] is None:
            return v["data"], None, None
        u, _, r = o["units"].partition("since")
        iu, ir = T.split(v["units"])
        u = iu if blank(u) else u.strip()
        r = ir if blank(r) else r.strip()
        if u not in T.SECONDS:
            raise Refused("units")
        if o["cal"] is not None and T.ALIAS[o["cal"]] != cal:
            raise Refused("calendar")
        to = u + " since " + r
        return T.convert(v["data"], v["units"], to, cal), to, cal
    iu = v["units"] if v["kind"] == "plain" else "1"
    if o["units"] is None:
        return v["data"], None, None
    if blank(o["units"]):
        return v["data"], iu, None
    if "since" in o["units"] or TABLE[o["units"]][0] != TABLE[iu][0]:
        raise Refused("units")
    (_, f1, o1), (_, f2, o2) = TABLE[iu], TABLE[o["units"]]
    return [(x * f1 + o1 - o2) / f2 for x in v["data"]], o["units"], None


def run(c, stt):
    w = {"dims": [["t", c["n"], False]], "dmap": {"t": "time"}, "nfiles": 1, "outvars": [],
         "invars": [{"name": "v%d" % k, "dims": ["t"], "dtype": v["dtype"], "data": v["data"],
                     "mask": v["mask"], "units": v["units"], "pos": None, "cal": v["cal"],
                     "files": [0]} for k, v in enumerate(c["ins"])],
         "exec": {}}
    for k, o in enumerate(c["outs"]):
        a = {}
        if o["units"] is not None:
            a["units"] = o["units"]
        if o["cal"] is not None:
            a["calendar"] = o["cal"]
        w["outvars"].append({"name": "o%d" % k, "dims": [] if o["scalar"] else ["time"],
                             "datatype": o["dtype"], "attrs": a,
                             "text": "v%d" % o["from"] + ("[0]" if o["scalar"] else ""),
                             "file": {"filename": "f%d.nc" % k}})
    # one flow per output variable tells which one is refused
    with W.scratch() as root:
        W.write_inputs(w, root)
        good = []
        for k, o in enumerate(c["outs"]):
            v = c["ins"][o["from"]]
            try:
                expect(v, o)
            except Refused as r:
                stt.event("refused: " + str(r))
                stt.nt()
                one = dict(w, outvars=[w["outvars"][k]])
                if v["mask"][0] and o["scalar"]:
                    continue
                try:
                    W.execute(one, root, out=os.path.join(root, "refused"))
                except Exception:
                    continue
                check(False, "{} {} (calendar {}) can not be written as {} (calendar {}), but was",
                      v["kind"], v["units"], v["cal"], o["units"], o["cal"])
            else:
                good.append(k)
        if not good:
            return
        w["outvars"] = [w["outvars"][k] for k in good]
        warned = W.execute(w, root, out=os.path.join(root, "out"))
        for k in good:
            o = c["outs"][k]
            v = c["ins"][o["from"]]
            f = W.read_file(os.path.join(root, "out", "f%d.nc" % k))
            x = f["vars"]["o%d" % k]
            vals, units, cal = expect(v, o)
            what = "{} {} (calendar {}) {} written as {} (calendar {})".format(
                v["data"], v["units"], v["cal"], v["mask"], o["units"], o["cal"])
            m = np.array(v["mask"], bool)
            vals = np.array(vals, float)
            if o["scalar"]:
                m, vals = m[0], vals[0]
            got = x["data"]
            check(got.shape == vals.shape, "{}: shape {}", what, got.shape)
            gm = np.ma.getmaskarray(got)
            check(np.array_equal(gm, m), "{}: missing values {}", what, gm.tolist())
            if units is not None and "since" in units:
                tol = 2e-3 / T.SECONDS[T.split(units)[0]] + (1.2e-7 if o["dtype"] == "float" else 1e-9) * np.abs(vals)
                stt.event("time reference")
                if units != v["units"]:
                    stt.nt()
            else:
                big = np.abs(vals) + 600.0 * (units in ("K", "degC", "degF"))
                tol = 1e-9 * big + 1e-12 + (1.2e-7 * np.abs(vals) if o["dtype"] == "float" else 0.0)
                if units not in (None, v["units"]):
                    stt.nt()
            gv = np.ma.getdata(got).astype(float)
            bad = (np.abs(gv - vals) > tol) & ~m
            check(not bad.any(), "{}: values {} instead of {}", what, got.tolist(), vals.tolist())
            # what the file says about the units
            gu = x["attrs"].get("units")
            if units is None:
                check(gu is None, "{}: units attribute {!r}", what, gu)
            else:
                check(gu is not None, "{}: no units attribute", what)
                if "since" in units:
                    check("since" in gu and T.origin(gu, cal) == T.origin(units, cal),
                          "{}: units attribute {!r} instead of {!r}", what, gu, units)
                    gc = x["attrs"].get("calendar", "standard")
                    check(T.ALIAS.get(gc) == cal, "{}: calendar {!r} instead of {!r}", what, gc, cal)
                else:
                    check(Unit(gu) == Unit(units), "{}: units attribute {!r} instead of {!r}", what,
                          gu, units)
        if any(c["ins"][c["outs"][k]["from"]]["kind"] == "bogus" for k in good):
            msgs = [str(x.message) for x in warned]
            check(any("bogus_units" in t for t in msgs), "no warning about unknown units: {}", msgs)
            stt.event("unknown units")


INTS = {"byte": (8, 1), "ubyte": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "int64": (64, 1), "uint64": (64, 0)}


def int_limits(bits, signed):
    return (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


@st.composite
def integers(draw):
    n = draw(st.integers(1, 4))
    it = draw(st.sampled_from(["i1", "i2", "i4", "i4", "u1", "u2", "i8"]))
    ot = draw(st.sampled_from(["byte", "short", "int", "int"] + sorted(INTS)))
    fam = draw(st.sampled_from(["length", "mass", "none", "press", "time", "ref"]))
    if fam == "ref":
        us = ["days since 1850-01-01", "hours since 1850-01-01", "days since 1850-02-01", "days since 1849-12-31 12:00"]
    else:
        us = sorted(u for u in TABLE if TABLE[u][0] == fam and u not in ("degrees_north", "radians"))
    lim = {"i1": 127, "i2": 32767, "i4": 2147483647, "u1": 253, "u2": 65533, "i8": 2 ** 40}[it]
    low = 0 if it[0] == "u" else -lim
    if fam == "ref":
        lim, low = min(lim, 30000), max(low, -30000)
    near = st.sampled_from([k for k in (127, 128, -128, -129, 255, 32767, 32768, -32768, -32769, 1270, 12, 300000, 65535, 65536, 2 ** 31, 2 ** 32,
                                      -2 ** 31 - 1) if low <= k <= lim])
    vals = [draw(st.one_of(st.integers(-20, 120), st.integers(-12, 12).map(lambda x: x * 100 if abs(x) * 100 <= lim else x), near)
                 .map(lambda x: max(low, x)))
            for _ in range(n)]
    return {"it": it, "ot": ot, "iu": draw(st.sampled_from(us)),
            "ou": draw(st.sampled_from(us + [None])), "data": vals,
            "mask": [draw(st.integers(0, 4)) == 0 for _ in range(n)], "fill": draw(st.booleans())}


def as_ints(c):
    """the integers to write, or a refusal"""
    vals = [x for x, m in zip(c["data"], c["mask"]) if not m]
    if c["ou"] is None:
        out = list(map(float, vals))
    elif "since" in c["iu"]:
        (f1, s1), (f2, s2) = T.origin(c["iu"], "noleap"), T.origin(c["ou"], "noleap")
        out = [(x * f1 + s1 - s2) / f2 for x in vals]
    else:
        (_, f1, o1), (_, f2, o2) = TABLE[c["iu"]], TABLE[c["ou"]]
        out = [(x * f1 + o1 - o2) / f2 for x in vals]
    for x in out:
        far = abs(x - round(x))
        if 1e-7 < far < 1e-3:
            raise Discard("hardly an integer")
    lo, hi = int_limits(*INTS[c["ot"]])
    if any(abs(x - round(x)) > 1e-7 or not lo <= round(x) <= hi for x in out):
        return None
    return [round(x) for x in out]


def run_integers(c, stt):
    want = as_ints(c)
    cal = "noleap" if "since" in c["iu"] else None
    w = {"dims": [["t", len(c["data"]), False]], "dmap": {"t": "time"}, "nfiles": 1, "exec": {},
         "invars": [{"name": "v", "dims": ["t"], "dtype": c["it"], "data": c["data"], "mask": None, "cal": cal,
                     "units": c["iu"], "pos": None, "files": [0]}]}
    a = {}
    if c["ou"] is not None:
        a["units"] = c["ou"]
        if cal:
            a["calendar"] = cal
    if c["fill"]:
        bits, signed = INTS[c["ot"]]
        a["_FillValue"] = 1 - 2 ** (bits - 1) if signed else 2 ** bits - 1
        if bits == 64:
            a["_FillValue"] = 99999
        if want is not None and a["_FillValue"] in want:
            raise Discard("fill value among the data")
    w["outvars"] = [{"name": "o", "dims": ["time"], "datatype": c["ot"], "attrs": a, "text": "v",
                     "file": {"filename": "f.nc", "format": "NETCDF4"}}]
    what = "{} {} as {} {}".format(c["data"], c["iu"], c["ot"], c["ou"])
    with W.scratch() as root:
        W.write_inputs(w, root)
        if any(c["mask"]):
            from netCDF4 import Dataset

            with Dataset(os.path.join(root, "in0.nc"), "a") as nc:
                nc["v"].setncattr("missing_value", np.array(c["data"][c["mask"].index(True)], c["it"]))
                gone = c["data"][c["mask"].index(True)]
                c = dict(c, mask=[x == gone for x in c["data"]])
                want = as_ints(c)
                if c["fill"] and want is not None and a["_FillValue"] in want:
                    raise Discard("fill value among the data")
        if want is None:
            stt.event("no such integers")
            stt.nt()
            try:
                W.execute(w, root, out=os.path.join(root, "out"))
            except Exception:
                return
            check(False, "{}: was written as {}", what,
                  W.read_file(os.path.join(root, "out", "f.nc"))["vars"]["o"]["data"].tolist())
        W.execute(w, root, out=os.path.join(root, "out"))
        got = W.read_file(os.path.join(root, "out", "f.nc"))["vars"]["o"]["data"]
        exp = [None if m else want[sum(1 for t in c["mask"][:k] if not t)] for k, m in enumerate(c["mask"])]
        from netCDF4 import default_fillvals

        # (the value that missing values have by default can be taken for one)
        t = DTYPES[c["ot"]]
        check(got.dtype == np.dtype(t), "{}: type {}", what, got.dtype)
        got = [e if g is None and e == default_fillvals[t] else g for g, e in zip(got.tolist(), exp)]
        check(got == exp, "{}: {} instead of {}", what, got, exp)
        if c["ou"] not in (None, c["iu"]) or INTS[c["ot"]][0] < 8 * int(c["it"][1]):
            stt.nt()


# data given in the specification
DTYPES = {"byte": "i1", "ubyte": "u1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "int64": "i8", "uint64": "u8", "float": "f4",
          "real": "f4", "double": "f8"}


@st.composite
def given_data(draw):
    t = draw(st.sampled_from(sorted(DTYPES)))
    whole = st.one_of(st.integers(-4, 9), st.builds(lambda b, d, s: s * (2 ** b + d), st.sampled_from([7, 8, 15, 16, 31, 32, 53, 62, 63]), st.integers(-2, 2),
                                                    st.sampled_from([1, 1, -1])))
    num = draw(st.sampled_from(["whole", "whole", "small", "float", "mixed"]))
    one = {"whole": whole, "small": st.integers(0, 100), "float": st.builds(float, st.integers(-300, 300)),
           "mixed": st.one_of(st.integers(0, 100), st.builds(float, st.integers(0, 100)), st.sampled_from([0.5, 1.25, -2.75, 300.0, 1e10]))}[num]
    n, m = draw(st.integers(1, 3)), draw(st.sampled_from([None, 1, 2]))
    data = draw(st.lists(one if m is None else st.lists(one, min_size=m, max_size=m), min_size=n, max_size=n))
    if m is None and n == 1 and draw(st.booleans()):
        data = data[0]
    return {"type": t, "data": data, "units": draw(st.sampled_from(["1", "m", None])), "fmt": draw(st.sampled_from(["NETCDF4"] * 5 + ["NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"])),
            "again": draw(st.booleans())}


def run_given(c, stt):
    from netCDF4 import Dataset
    from pyconform import dataflow, datasets

    flat = [x for y in (c["data"] if isinstance(c["data"], list) else [c["data"]]) for x in (y if isinstance(y, list) else [y])]
    t = np.dtype(DTYPES[c["type"]])
    has = c["fmt"] == "NETCDF4" or t.str[1:] in ("i1", "i2", "i4", "f4", "f8")
    if t.kind in "iu":
        lim = np.iinfo(t)
        ok = all(x == int(x) and int(lim.min) <= int(x) <= int(lim.max) for x in flat)
    else:
        ok = True
    ok = ok and has
    dims = [] if not isinstance(c["data"], list) else ["k", "l"][: 2 if isinstance(c["data"][0], list) else 1]
    what = "data {} of type {} in a file of format {}".format(c["data"], c["type"], c["fmt"])
    with W.scratch() as root:
        path = os.path.join(root, "in.nc")
        with Dataset(path, "w") as nc:
            nc.createDimension("x", 1)
            nc.createVariable("v", "f8", ("x",))[:] = 1.0
        spec = {"a": {"definition": c["data"], "dimensions": dims, "datatype": c["type"], "attributes": {"units": c["units"]} if c["units"] else {},
                      "file": {"filename": os.path.join(root, "a.nc"), "format": c["fmt"]}}}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            def go():
                flow = dataflow.DataFlow(datasets.InputDatasetDesc("inp", filenames=[path]), datasets.OutputDatasetDesc("out", dsdict=spec))
                flow.execute(serial=True)
            if not ok:
                stt.event("does not fit" if has else "no such type in the format")
                stt.nt()
                try:
                    go()
                except Exception:
                    check(not os.path.exists(os.path.join(root, "a.nc")), "{}: refused, but the file is there", what)
                    return
                with Dataset(os.path.join(root, "a.nc")) as nc:
                    nc.set_auto_mask(False)
                    check(False, "{}: written as {}", what, nc.variables["a"][...].tolist())
            go()
        with Dataset(os.path.join(root, "a.nc")) as nc:
            nc.set_auto_mask(False)
            got = nc.variables["a"]
            check(got.dtype == t and list(got.dimensions) == dims, "{}: {} on {}", what, got.dtype, got.dimensions)
            got = got[...].ravel().tolist()
    want = [t.type(x).item() for x in flat]
    check(got == want, "{}: {} instead of {}", what, got, want)
    stt.event(c["type"])
    if any(abs(x) > 100 for x in flat):
        stt.nt()


PROP = Prop(
    "C05",
    [Sub("units", cases, run, quick=1600), Sub("integers", integers, run_integers, quick=900), Sub("given", given_data, run_given, quick=500)],
    rule="input variables with 28 units of 12 families, time references (units, reference dates, "
    "6 calendars), no or unknown units, missing values, integers and single elements; outputs with "
    "the same, convertible, unspecified, partly specified or inconvertible units and calendars; "
    "values and attributes compared with an own table of factors and own calendar arithmetic; "
    "integers written as integers of any size in any of the units: the converted integers, or a refusal; numbers given in the specification, for every datatype: as they are, or a refusal; "
    "non-trivial: units differ or have to be refused",
    assumptions=["instants before 1600 are only tested in calendars of constant year length"],
)
