"""C31: the NetCDF facade reads and writes what it is given"""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Prop, Sub, check
from pbt.gen import lengthen

FORMATS = ["netcdf", "netcdfLarge", "netcdf4", "netcdf4c", "netcdf4c1", "netcdf4c5", "netcdf4c9", "netcdf4c0"]
MODEL = {"netcdf": "NETCDF3_CLASSIC", "netcdfLarge": "NETCDF3_64BIT_OFFSET"}
TYPES = ["f8", "f8", "f4", "i4", "i2", "i1", "S1"]
ATTRS = {"units": "K", "long_name": "a name", "name": "other", "shape": "round", "size": 3, "dtype": "x", "scale": 2.5, "mask": "none", "valid_range": [0, 7],
         "missing_value": -99, "chunking": "no", "comment": "é ü"}


@st.composite
def variable(draw, name, dims):
    t = draw(st.sampled_from(TYPES))
    return {"name": name, "dims": dims, "type": t, "attrs": sorted(draw(st.lists(st.sampled_from(sorted(ATTRS)), unique=True, max_size=4))),
            "fill": None if t == "S1" else draw(st.sampled_from([None, None, -9, 100])), "seed": draw(st.integers(0, 999)),
            "missing": t != "S1" and draw(st.integers(0, 2)) == 0}


@st.composite
def cases(draw):
    sizes = lengthen(draw, {"time": draw(st.integers(1, 3)), "lat": draw(st.integers(1, 3)), "lon": draw(st.integers(1, 3))})
    sizes["str"] = 4
    shapes = [["time", "lat", "lon"], ["time", "lon"], ["lat", "lon"], ["lat"], ["lon", "str"], ["time"], [], ["time", "lat"]]
    vs = [draw(variable("time", ["time"]))]
    vs[0]["type"] = draw(st.sampled_from(["f8", "f4", "i4"]))
    vs[0]["missing"] = False
    for i in range(draw(st.integers(1, 4))):
        vs.append(draw(variable("m%d" % i, draw(st.sampled_from(shapes)))))
    vs.append(draw(variable("data", draw(st.sampled_from([s for s in shapes if s[:1] == ["time"] and s != ["time"]])))))
    vs[-1]["type"] = draw(st.sampled_from(["f8", "f8", "f4", "i4", "i2"]))
    files = []
    for i in range(draw(st.integers(1, 3))):
        files.append({"format": draw(st.sampled_from(FORMATS)), "name": draw(st.sampled_from(["data", "out", "tas"])),
                      "meta": sorted(draw(st.lists(st.sampled_from([v["name"] for v in vs[1:-1]]), unique=True))), "time": draw(st.booleans()),
                      "hist": draw(st.sampled_from([None, "made", ""])), "order": list(draw(st.permutations(range(draw(st.integers(1, 4)))))),
                      "default": draw(st.booleans()), "scalar": draw(st.booleans())})
    return {"sizes": sizes, "vars": vs, "files": files, "gattrs": sorted(draw(st.lists(st.sampled_from(["history", "title", "number"]), unique=True))),
            "format": draw(st.sampled_from(["NETCDF4", "NETCDF3_CLASSIC", "NETCDF4_CLASSIC"])), "extra": draw(st.integers(0, 9))}


def values(v, shape, extra=0):
    r = np.random.RandomState(v["seed"] + extra)
    if v["type"] == "S1":
        return np.ma.array(r.choice([b"a", b"b", b"z"], size=shape).astype("S1"))
    t = np.dtype(v["type"])
    # numbers that no smaller type can hold
    if t.kind == "f":
        x = r.randint(-2 ** 21, 2 ** 21, size=shape) / 8.0 + (1.0 / 3 if t == "f8" else 0)
    else:
        n = {"i1": 2 ** 6, "i2": 2 ** 14, "i4": 2 ** 30}[v["type"]]
        x = r.randint(-n, n, size=shape) + (1 if n > 2 ** 20 else 0)
    x = np.ma.array(np.asarray(x).astype(t))
    if v["missing"]:
        x = np.ma.masked_where(r.randint(0, 4, size=shape) == 0, x)
    if v["fill"] is not None:
        x = np.ma.where(x == v["fill"], x + 1, x).astype(t)
    return x


def attrs_of(v):
    a = {k: ATTRS[k] for k in v["attrs"]}
    if v["fill"] is not None:
        a["_FillValue"] = v["fill"]
    return a


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        return False
    return np.array_equal(a.compressed(), b.compressed())


def check_attrs(got, want, what):
    check(set(got) == set(want), "{}: attributes {} instead of {}", what, sorted(got), sorted(want))
    for k in want:
        check(np.array_equal(np.asarray(got[k]), np.asarray(want[k])), "{}: attribute {} is {!r} instead of {!r}", what, k, got[k], want[k])


def run(c, stt):
    from netCDF4 import Dataset
    from pyconform import climIO

    port = climIO.init_climIO(override="netCDF4")
    sizes = c["sizes"]
    gattrs = {k: {"history": "old times", "title": "a title", "number": 4}[k] for k in c["gattrs"]}
    with W.scratch() as root:
        tmpl = os.path.join(root, "in.nc")
        data = {}
        with Dataset(tmpl, "w", format=c["format"]) as nc:
            nc.setncatts(gattrs)
            for d, n in sizes.items():
                nc.createDimension(d, None if d == "time" and c["extra"] % 2 else n)
            for v in c["vars"]:
                x = nc.createVariable(v["name"], v["type"], v["dims"], fill_value=v["fill"])
                for k in v["attrs"]:
                    x.setncattr(k, ATTRS[k])
                data[v["name"]] = values(v, [sizes[d] for d in v["dims"]])
                x[...] = data[v["name"]]
        before = open(tmpl, "rb").read()
        # reading
        f = port.open_file(tmpl)
        for v in c["vars"]:
            if v["attrs"] and set(v["attrs"]) & {"valid_range", "missing_value"}:
                # (values can be taken to be missing)
                continue
            what = "variable {} {} {}".format(v["name"], v["type"], v["dims"])
            check(same(port.read_slice(f, v["name"], 0, all_values=True), data[v["name"]]), "{} read as {} instead of {}", what,
                  port.read_slice(f, v["name"], 0, True), data[v["name"]])
            if v["dims"]:
                i = v["seed"] % sizes[v["dims"][0]]
                check(same(port.read_slice(f, v["name"], i), data[v["name"]][i]), "{}[{}] read as {} instead of {}", what, i,
                      port.read_slice(f, v["name"], i), data[v["name"]][i])
        for v in c["vars"]:
            code, dims, atts = port.get_var_info(f, v["name"])
            what = "variable {}".format(v["name"])
            check(np.dtype(code) == np.dtype(v["type"]), "{}: type {} instead of {}", what, code, v["type"])
            check(list(dims) == v["dims"], "{}: dimensions {} instead of {}", what, dims, v["dims"])
            check_attrs(dict(atts), attrs_of(v), what)
        port.close_file(f)
        check(not f.isopen(), "file is open after close_file")
        # writing, with the same port
        byname = {v["name"]: v for v in c["vars"]}
        src = byname["data"]
        plain = not set(src["attrs"]) & {"valid_range", "missing_value"}
        for n, o in enumerate(c["files"]):
            path = os.path.join(root, "out%d.nc" % n)
            f = port.create_file(path, o["format"], **({} if o["hist"] is None else {"hist_string": o["hist"]}))
            check(f.history == ("clim-convert" + path if o["hist"] is None else o["hist"]), "history {!r} of a new file (asked: {!r})", f.history, o["hist"])
            meta = [m for m in o["meta"]] + (["time"] if o["time"] else [])
            allv, f2 = port.define_file(f, o["name"], meta, tmpl, "data")
            check(f2 is f and set(allv) == set(meta + [o["name"]]), "variables {} instead of {}", sorted(allv), sorted(meta + [o["name"]]))
            shape = [sizes[d] for d in src["dims"][1:]]
            written, times = {}, {}
            for k, i in enumerate(o["order"]):
                x = values(src, shape, extra=k + 1)
                kw = {} if o["default"] and i == 0 else {"index": i}
                port.write_var(allv, x, o["name"], **kw)
                written[i] = x
                if o["time"]:
                    t = np.array(values(byname["time"], [], extra=k + 1))
                    port.write_var(allv, t if o["scalar"] else t.reshape(1), "time", **kw)
                    times[i] = t
            if o["hist"] is not None and "history" not in gattrs:
                hist = o["hist"]
            else:
                hist = "clim-convert" + path if "history" not in gattrs else "Standardized\n" + gattrs["history"]
            port.close_file(f)
            what = "format {} (after {})".format(o["format"], [p["format"] for p in c["files"][:n]])
            with Dataset(path) as nc:
                check(nc.data_model == MODEL.get(o["format"], "NETCDF4_CLASSIC"), "{}: data model {}", what, nc.data_model)
                check_attrs({k: nc.getncattr(k) for k in nc.ncattrs()}, dict(gattrs, history=hist), what + " file")
                ntime = max([max(written) + 1] + ([sizes["time"]] if any("time" in byname[m]["dims"] for m in meta) else []))
                for d in sizes:
                    check(nc.dimensions[d].isunlimited() == (d == "time"), "{}: dimension {} unlimited {}", what, d, d != "time")
                    check(len(nc.dimensions[d]) == (ntime if d == "time" else sizes[d]), "{}: size {} of dimension {}", what, len(nc.dimensions[d]), d)
                check(set(nc.variables) == set(allv), "{}: variables {} instead of {}", what, sorted(nc.variables), sorted(allv))
                for m in meta + [o["name"]]:
                    v = src if m == o["name"] else byname[m]
                    x = nc.variables[m]
                    check(x.dtype == np.dtype(v["type"]) and list(x.dimensions) == v["dims"], "{}: {} is {} {} instead of {} {}", what, m, x.dtype,
                          x.dimensions, v["type"], v["dims"])
                    check_attrs({k: x.getncattr(k) for k in x.ncattrs()}, attrs_of(v), "{}: variable {}".format(what, m))
                    if o["format"].startswith("netcdf4"):
                        fl = x.filters() or {}
                        level = (int(o["format"][8:] or 1) if o["format"].startswith("netcdf4c") else 0) if v["dims"] else fl.get("complevel", 0)
                        check(fl.get("complevel", 0) == level, "{}: level {} instead of {} ({})", what, fl.get("complevel"), level, m)
                    if not set(v["attrs"]) & {"valid_range", "missing_value"}:
                        if m == o["name"]:
                            for i in written:
                                check(same(x[i], written[i]), "{}: {}[{}] {} instead of {} (written in the order {})", what, m, i, x[i], written[i], o["order"])
                        elif m != "time":
                            n0 = [slice(sizes["time"])] if v["dims"][:1] == ["time"] else []
                            got = x[tuple(n0)] if n0 else x[...]
                            check(same(got, data[m]), "{}: {} {} instead of {}", what, m, got, data[m])
                        else:
                            for i in range(max(sizes["time"], len(written))):
                                want = times.get(i, data["time"][i] if i < sizes["time"] else None)
                                if want is not None:
                                    check(same(x[i], want), "{}: time {} is {} instead of {} (written in the order {})", what, i, x[i], want, o["order"])
            stt.event(o["format"])
        check(open(tmpl, "rb").read() == before, "the file that was read has changed")
        if len(c["files"]) > 1 and plain:
            stt.nt()


# names of files
@st.composite
def ncases(draw):
    parts = draw(st.lists(st.sampled_from(["$prefix", "$var", "$date_pattern", "$hem", "$suffix", ".", "_", "x"]), max_size=6))
    return {"pattern": parts, "fn": draw(st.sampled_from(["case", "f.nc", "a.b"])), "date": draw(st.sampled_from(["2000-01", "185001-200512"])),
            "suffix": draw(st.sampled_from(["nc", ".nc", ""])), "var": draw(st.sampled_from(["tas", "T"])), "split": draw(st.sampled_from(["", "nh", "sh"])),
            "there": sorted(draw(st.lists(st.sampled_from(["dir", "cwd", "pattern", "dirdir"]), unique=True)))}


def nrun(c, stt):
    from pyconform import climIO

    with W.scratch() as root:
        d = os.path.join(root, "d")
        os.mkdir(d)

        month = {"directory": d, "fn": c["fn"], "pattern": c["pattern"], "date_stamp": c["date"], "suffix": c["suffix"]}
        table = {"$prefix": c["fn"], "$var": c["var"], "$date_pattern": c["date"], "$hem": c["split"], "$suffix": c["suffix"]}
        name = "".join(table.get(p, p) for p in c["pattern"])
        old = os.getcwd()
        os.chdir(root)
        try:

            want = None
            if "pattern" in c["there"] and name and name not in (".", ".."):
                want = d + "/" + name
                open(want, "w").close()
            if "cwd" in c["there"]:
                open(c["fn"], "w").close()
                want = c["fn"]
            if "dirdir" in c["there"] and not os.path.exists(d + "/" + c["fn"]):
                # (a directory is no file)
                os.mkdir(d + "/" + c["fn"])
            elif "dir" in c["there"]:
                open(d + "/" + c["fn"], "w").close()
            if os.path.isfile(d + "/" + c["fn"]):
                want = d + "/" + c["fn"]
            got = climIO.get_filename(c["var"], month, c["split"])
        finally:
            os.chdir(old)
    check(got == want, "{} with {}: {!r} instead of {!r}", month, c["there"], got, want)
    stt.event("found" if want else "not found")
    if c["there"]:
        stt.nt()


PROP = Prop(
    "C31",
    [Sub("files", cases, run, quick=600), Sub("names", ncases, nrun, quick=400)],
    rule="template files of three formats (4 dimensions, 3-6 variables of 6 types and 0-3 dimensions, fill values, missing values, attributes "
    "named like parts of Python objects) read through the facade, and 1-3 files written after them with one port in the formats and compression levels "
    "there are, times in any order, by index or not; read back with netCDF4 and compared; patterns of file names with files here and there; "
    "non-trivial: more than one file written, or some file there",
)
