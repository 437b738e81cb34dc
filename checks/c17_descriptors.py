"""C17: inconsistent datasets are refused, consistent ones are described as they are"""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

NTYPE = {"f8": "double", "f4": "float", "i4": "int", "i2": "short", "i1": "byte", "S1": "char",
         "i8": "int64", "u1": "ubyte", "u2": "ushort", "u4": "uint", "u8": "uint64"}
CLASSIC = ["f8", "f4", "i4", "i2", "i1", "S1"]
FORMATS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]


# ------------------------------------------------------------------------------ input datasets
@st.composite
def inputs(draw):
    dims = {d: [draw(st.integers(1, 4)), d == "t" and draw(st.booleans())] for d in "txyz"}
    if dims["t"][1] and draw(st.integers(0, 2)) == 0:
        dims["t"][0] = 0
    fmt = draw(st.sampled_from(FORMATS))
    types = sorted(NTYPE) if fmt == "NETCDF4" else CLASSIC
    pool = []
    for k in range(draw(st.integers(1, 5))):
        vd = draw(st.lists(st.sampled_from("txyz"), unique=True, max_size=3))
        if "t" in vd:
            vd.remove("t")
            vd.insert(0, "t")
        dt = draw(st.sampled_from(types))
        if dt == "S1":
            vd = vd + ["n%d" % k]
            dims["n%d" % k] = [draw(st.integers(1, 5)), False]
        pool.append({"name": "v%d" % k, "dims": vd, "dtype": dt,
                     "attrs": dict(draw(st.lists(st.sampled_from(
                         [["units", "m"], ["long_name", "x"], ["number", 3], ["list", [1.0, 2.0]]]),
                         max_size=3, unique_by=lambda x: x[0])))})
    nf = draw(st.integers(1, 3))
    files = []
    for k in range(nf):
        vs = [copy.deepcopy(v) for v in pool if nf == 1 or draw(st.integers(0, 2))]
        files.append({"dims": copy.deepcopy(dims), "vars": vs, "format": fmt,
                      "attrs": dict(draw(st.lists(st.sampled_from([["title", "a"], ["version", 2]]),
                                                  unique_by=lambda x: x[0])))})
    c = {"files": files, "break": None}
    if nf > 1 and draw(st.booleans()):
        # an inconsistency between two files
        f = draw(st.integers(1, nf - 1))
        kind = draw(st.sampled_from(["size", "unlimited", "type", "dims", "order"]))
        g = files[f]
        if g["vars"]:
            v = draw(st.sampled_from(g["vars"]))
            if kind in ("size", "unlimited") and v["dims"]:
                d = draw(st.sampled_from(v["dims"]))
                if kind == "size":
                    g["dims"][d][0] += draw(st.sampled_from([1, 2]))
                elif v["dims"][0] == d:
                    unl = not g["dims"][d][1]
                    if unl and any(x[1] for x in g["dims"].values()) or any(
                            d in x["dims"][1:] for x in g["vars"]) or d[0] == "n":
                        pass
                    elif unl or g["dims"][d][0]:  # (a limited dimension of size 0 does not exist in NetCDF)
                        g["dims"][d][1] = unl
                c["break"] = kind
            elif kind == "type":
                v["dtype"] = draw(st.sampled_from([t for t in types if t not in ("S1", v["dtype"])]))
                c["break"] = kind
            elif kind == "dims" and v["dtype"] != "S1":
                v["dims"] = v["dims"][:-1] if v["dims"] and draw(st.booleans()) else v["dims"] + [
                    d for d in "zyx" if d not in v["dims"]][:1]
                c["break"] = kind
            elif kind == "order" and v["dtype"] != "S1" and len(v["dims"]) > 1 and "t" not in v["dims"]:
                v["dims"] = v["dims"][::-1]
                c["break"] = kind
    return c


def consistent(files):
    dims, vs = {}, {}
    for f in files:
        for v in f["vars"]:
            for d in v["dims"]:
                if dims.setdefault(d, f["dims"][d]) != f["dims"][d]:
                    return "dimension " + d
    for f in files:
        for v in f["vars"]:
            x = (v["dtype"], v["dims"])
            if vs.setdefault(v["name"], x) != x:
                return "variable " + v["name"]
    return None


def inputs_run(c, stt):
    from netCDF4 import Dataset

    from pyconform.datasets import InputDatasetDesc

    with W.scratch() as root:
        names = []
        for k, f in enumerate(c["files"]):
            fn = os.path.join(root, "f%d.nc" % k)
            names.append(fn)
            with Dataset(fn, "w", format=f["format"]) as nc:
                nc.setncatts(f["attrs"])
                for d in sorted({d for v in f["vars"] for d in v["dims"]}):
                    n, u = f["dims"][d]
                    nc.createDimension(d, None if u else n)
                for v in f["vars"]:
                    x = nc.createVariable(v["name"], v["dtype"], tuple(v["dims"]))
                    x.setncatts(v["attrs"])
                    shp = [f["dims"][d][0] for d in v["dims"]]
                    x[...] = np.full(shp, b"a", "S1") if v["dtype"] == "S1" else np.ones(shp)
        why = consistent(c["files"])
        # (dimensions nobody uses, and unlimited dimensions, exist as long as they are written)
        if why is not None:
            stt.event("inconsistent: " + why.split()[0])
            stt.nt()
            try:
                InputDatasetDesc("inp", filenames=names)
            except ValueError:
                return
            check(False, "files that disagree about {} are accepted: {}", why, c["files"])
        desc = InputDatasetDesc("inp", filenames=names)
        dims = {d: f["dims"][d] for f in c["files"] for v in f["vars"] for d in v["dims"]}
        vs = {v["name"]: v for f in c["files"] for v in f["vars"]}
        check(set(desc.dimensions) == set(dims), "dimensions {} instead of {}", list(desc.dimensions), list(dims))
        for d, (n, u) in dims.items():
            x = desc.dimensions[d]
            check((x.size, x.unlimited) == (n, u), "dimension {}: {} {} instead of {} {}", d, x.size,
                  x.unlimited, n, u)
        check(set(desc.variables) == set(vs), "variables {} instead of {}", list(desc.variables), list(vs))
        for n, v in vs.items():
            x = desc.variables[n]
            check(tuple(x.dimensions) == tuple(v["dims"]), "{}: dimensions {} instead of {}", n,
                  tuple(x.dimensions), v["dims"])
            check(x.datatype == NTYPE[v["dtype"]] and x.dtype == np.dtype(v["dtype"]),
                  "{}: type {} instead of {}", n, x.datatype, v["dtype"])
            first = [y for f in c["files"] for y in f["vars"] if y["name"] == n][0]
            got = {a: W.plain(b) for a, b in x.attributes.items()}
            check(got == first["attrs"], "{}: attributes {} instead of {}", n, got, first["attrs"])
            where = {fn for fn, f in zip(names, c["files"]) if any(y["name"] == n for y in f["vars"])}
            check(set(x.files) == where, "{}: files {} instead of {}", n, set(x.files), where)
        check(list(desc.files) == names, "files {} instead of {}", list(desc.files), names)
        for fn, f in zip(names, c["files"]):
            x = desc.files[fn]
            check(set(x.variables) == {v["name"] for v in f["vars"]}, "variables of {}: {}", fn, list(x.variables))
            check(set(x.dimensions) == {d for v in f["vars"] for d in v["dims"]}, "dimensions of {}: {}",
                  fn, list(x.dimensions))
            got = {a: W.plain(b) for a, b in x.attributes.items()}
            check(got == f["attrs"], "attributes of {}: {} instead of {}", fn, got, f["attrs"])
            check(x.format == f["format"], "format of {}: {} instead of {}", fn, x.format, f["format"])
        if len(names) > 1 and vs:
            stt.nt()


# ----------------------------------------------------------------------------- output datasets
BREAKS = ["no dimensions", "no filename", "same filename", "bounds", "coordinates", "datatype",
          "format", "type in format", "deflate", "deflate type", "metavars", "data size", "data rank",
          "data missing dimension", "time variable", "attributes type", "definition"]


@st.composite
def outputs(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3, "nvars": (1, 2)},
                      out={"depth": 1, "nvars": (1, 3), "refuse": False}))
    n = draw(st.integers(2, 3))
    w["data"] = [[1.0] * n, draw(st.booleans())]
    w["break"] = draw(st.sampled_from(BREAKS + [None] * 6))
    w["pick"] = draw(st.integers(0, 9))
    w["val"] = draw(st.integers(0, 9))
    return w


def outputs_run(w, stt):
    from pyconform.datasets import OutputDatasetDesc

    spec = W.dsdict(w, "/nowhere")
    vec, second = w["data"]
    spec["kvec"] = {"attributes": {"units": "1"}, "datatype": "double", "dimensions": ["kdim"],
                    "definition": vec, "file": {"filename": "/nowhere/kvec.nc"}}
    if second:
        spec["kmat"] = {"attributes": {"units": "1"}, "datatype": "int", "dimensions": ["two", "kdim"],
                        "definition": [[1] * len(vec)] * 2, "file": {"filename": "/nowhere/kmat.nc"}}
    own = [o for o in spec if "file" in spec[o]]
    pick = own[w["pick"] % len(own)]
    v = spec[pick]
    b = w["break"]
    val = w["val"]
    if b == "no dimensions":
        del v["dimensions"]
    elif b == "no filename":
        del v["file"]["filename"]
    elif b == "same filename":
        other = own[(own.index(pick) + 1) % len(own)]
        if other == pick:
            raise Discard("one file")
        v["file"]["filename"] = spec[other]["file"]["filename"]
    elif b in ("bounds", "coordinates"):
        v.setdefault("attributes", {})[b] = "nosuch" if b == "bounds" or val < 5 else own[0] + " nosuch"
    elif b == "datatype":
        v["datatype"] = ["text", "string", "float64", "Double", ""][val % 5]
    elif b == "format":
        v["file"]["format"] = ["NETCDF", "netcdf4", "HDF5", "NETCDF5", ""][val % 5]
    elif b == "type in format":
        v["file"]["format"] = FORMATS[1 + val % 4]
        v["datatype"] = ["int64", "uint", "ushort", "uint64"][val % 4]
    elif b == "deflate":
        v["file"]["deflate"] = [-1, 10, 100][val % 3]
    elif b == "deflate type":
        v["file"]["deflate"] = ["2", 2.0, None][val % 3]
    elif b == "metavars":
        v["file"]["metavars"] = ["nosuch"]
    elif b == "time variable":
        v["file"]["autoparse_time_variable"] = "nosuch"
    elif b == "attributes type":
        v["attributes"] = [["units", "1"], "units", 1][val % 3]
    elif b == "data size":
        spec["kvec2"] = {"datatype": "double", "dimensions": ["kdim"], "definition": vec + [1.0],
                         "file": {"filename": "/nowhere/kvec2.nc"}}
    elif b == "data rank":
        spec["kvec"]["definition"] = [vec, vec]
    elif b == "data missing dimension":
        if val % 2:
            spec["kvec"]["definition"] = 1.0
        else:
            spec["kvec"]["dimensions"] = ["kdim", "ldim"]
    elif b == "definition":
        # no definition: the variable is skipped; nothing else may need it
        for x in spec.values():
            x.get("file", {}).pop("metavars", None)
            for a in ("bounds", "coordinates"):
                x.get("attributes", {}).pop(a, None)
        if val % 2:
            del v["definition"]
        else:
            v["definition"] = " " * (val // 2)
        before = copy.deepcopy(dict(spec))
        desc = OutputDatasetDesc("out", dsdict=spec)
        check(pick not in desc.variables, "{} has no definition, but is described", pick)
        fn = "/nowhere/" + os.path.basename(v["file"]["filename"])
        check(fn not in desc.files, "{} has no definition, but its file is described", pick)
        check(len(desc.files) == len(own) - 1, "files {} of variables {} without {}", list(desc.files),
              own, pick)
        stt.event("skipped")
        stt.nt()
        check(repr(dict(spec)) == repr(before), "the specification was changed")
        return
    before = copy.deepcopy(dict(spec))
    if b is not None:
        stt.event("invalid: " + b)
        stt.nt()
        try:
            OutputDatasetDesc("out", dsdict=spec)
        except Exception as err:
            check(isinstance(err, (ValueError, TypeError, KeyError)), "{}: {!r}", b, err)
        else:
            check(False, "a specification with an invalid {} is accepted: {} = {}", b, pick, v)
        check(repr(dict(spec)) == repr(before), "the specification was changed")
        return
    desc = OutputDatasetDesc("out", dsdict=spec)
    check(repr(dict(spec)) == repr(before), "the specification was changed")
    for n, x in desc.variables.items():
        s = spec[n]
        check(tuple(x.dimensions) == tuple(s["dimensions"]), "{}: dimensions {} instead of {}", n,
              tuple(x.dimensions), s["dimensions"])
        check(x.datatype == s.get("datatype", "float"), "{}: type {}", n, x.datatype)
        check(dict(x.attributes) == dict(s.get("attributes", {})), "{}: attributes {}", n, x.attributes)
        check(x.definition == s["definition"], "{}: definition {}", n, x.definition)
    for n in own:
        f = spec[n]["file"]
        x = desc.files[f["filename"]]
        check(n in x.variables, "{} is not in its file", n)
        check(x.format == f.get("format", "NETCDF4_CLASSIC"), "format of {}: {}", n, x.format)
        check(x.deflate == f.get("deflate", 2), "deflate of {}: {}", n, x.deflate)
    check(desc.dimensions["kdim"].size == len(vec), "size of kdim: {}", desc.dimensions["kdim"].size)
    stt.event("valid")


PROP = Prop(
    "C17",
    [Sub("input", inputs, inputs_run, quick=1200), Sub("output", outputs, outputs_run, quick=1500)],
    rule="1-3 input files with up to 5 variables of all types, with or without one disagreement about "
    "a dimension or variable; output specifications with or without one of 17 mistakes; "
    "non-trivial: several files, a disagreement, or a mistake",
)
