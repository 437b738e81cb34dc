"""C04: the structure of the output files is the one that was specified"""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

FORMATS = ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET",
           "NETCDF3_64BIT_DATA")
VATTRS = [["long_name", "some name"], ["standard_name", "air_temperature"], ["comment", "söme"],
          ["cell_methods", "time: mean (interval: 1 day)"], ["number", 3], ["weight", 2.5],
          ["flags", [1, 2, 3]], ["empty", "-"], ["x_y", "a b c"], ["zero", 0], ["nil", 0.0], ["blank", ""]]
GATTRS = [["title", "a title"], ["institution", "NCAR"], ["realization", 1], ["version", 1.5],
          ["levels", [1.0, 2.0]], ["Conventions", "CF-1.7"], ["zero", 0], ["blank", ""]]


@st.composite
def cases(draw):
    w = draw(W.worlds(
        inp={"ndims": (1, 3), "maxsize": 3},
        out={"depth": 1, "refuse": False, "directions": draw(st.booleans()), "formats": FORMATS}))
    for o in w["outvars"]:
        for k, v in draw(st.lists(st.sampled_from(VATTRS), max_size=3, unique_by=lambda x: x[0])):
            o["attrs"][k] = v
        if "_FillValue" in o["attrs"] and draw(st.booleans()):
            o["attrs"]["_FillValue"] = draw(st.sampled_from(
                [0, -32767, 7] if o["datatype"] == "int" else [0.0, -1.0, 9.96921e36, 2.5]))
        if o["name"].lstrip("_").startswith("a") and draw(st.booleans()):
            o["attrs"]["axis"] = draw(st.sampled_from("XYZT"))
        f = o["file"]
        omit = []
        if o["datatype"] == "float" and "tree" in o and draw(st.booleans()):
            omit.append("datatype")
        if not o["attrs"]:
            omit.append("attributes")
        if f:
            f["attributes"] = dict(draw(st.lists(st.sampled_from(GATTRS), max_size=3,
                                                 unique_by=lambda x: x[0])))
            if draw(st.booleans()):
                f["deflate"] = draw(st.integers(0, 9))
            if f["format"] == "NETCDF4_CLASSIC" and draw(st.booleans()):
                f.pop("format")
        o["omit"] = omit
    w["exec"]["history"] = draw(st.booleans())
    # the same flow may have been executed otherwise before
    w["exec before"] = None
    if draw(st.integers(0, 2)) == 0:
        w["exec before"] = {"history": draw(st.booleans()), "deflate": draw(st.sampled_from([None, 0, 3, 9]))}
    w["exec"]["deflate"] = draw(st.sampled_from([None, None, 0, 1, 5, 9]))
    return w


def plain(x):
    x = W.plain(x)
    if isinstance(x, (list, tuple)):
        x = [plain(y) for y in x]
        return x[0] if len(x) == 1 else x
    return x


def run(w, stt):
    try:
        for o in w["outvars"]:
            W.expected(w, o)
    except N.Refuse:
        raise Discard("has to be refused")
    env = W.env_of(w)
    byname = {o["name"]: o for o in w["outvars"]}
    sizes = {w["dmap"][d]: (n, u) for d, n, u in w["dims"]}
    for o in w["outvars"]:
        if "data" in o:
            for d, n in zip(o["dims"], np.shape(o["data"])):
                sizes[d] = (n, False)
    with W.scratch() as root:
        W.write_inputs(w, root)
        flow = W.make_flow(w, root, out=os.path.join(root, "out"))
        if w.get("exec before"):
            W.execute(dict(w, exec=dict(w["exec"], **w["exec before"])), root, flow=flow)
            stt.event("executed otherwise before")
        W.execute(w, root, flow=flow)
        wrote = sorted(os.listdir(os.path.join(root, "out")))
        check(wrote == sorted(W.own_files(w).values()), "files {} instead of {}", wrote,
              sorted(W.own_files(w).values()))
        for name, fn in W.own_files(w).items():
            fd = byname[name]["file"]
            f = W.read_file(os.path.join(root, "out", fn))
            fmt = fd.get("format", "NETCDF4_CLASSIC")
            check(f["format"] == fmt, "{}: format {} instead of {}", fn, f["format"], fmt)
            got = {k: plain(v) for k, v in f["attrs"].items() if k != "creation_date"}
            want = {k: plain(v) for k, v in fd.get("attributes", {}).items()}
            check(got == want, "{}: global attributes {} instead of {}", fn, got, want)
            names = W.file_vars(w, name)
            check(set(f["vars"]) == set(names), "{} holds variables {} instead of {}", fn,
                  sorted(f["vars"]), sorted(names))
            dims = {d for v in names for d in byname[v]["dims"]}
            wantd = {d: sizes[d] for d in dims}
            check(f["dims"] == wantd, "{}: dimensions {} instead of {}", fn, f["dims"], wantd)
            if len(names) > 1:
                stt.event("several variables")
                stt.nt()
            if any(n.startswith("_") for o in w["outvars"] for n in [o["name"]]):
                stt.event("hidden variable in the specification")
            for v in names:
                o, x = byname[v], f["vars"][v]
                what = "{} in {}".format(v, fn)
                check(tuple(x["dims"]) == tuple(o["dims"]), "{}: dimensions {} instead of {}", what,
                      x["dims"], o["dims"])
                check(x["dtype"] == np.dtype(W.NPTYPE[o["datatype"]]), "{}: type {} instead of {}",
                      what, x["dtype"], o["datatype"])
                attrs = dict(x["attrs"])
                hist = attrs.pop("history", None)
                check((hist is not None) == w["exec"]["history"],
                      "{}: history attribute {!r}, asked for: {}", what, hist, w["exec"]["history"])
                wanta = {k: a for k, a in o["attrs"].items() if k not in ("direction",)}
                for k in ("units", "calendar"):
                    # may be inherited, see C05
                    u = str(wanta.get(k, "?"))
                    if u.split("since")[0].strip() in ("", "?", "unknown") or "since" in u:
                        attrs.pop(k, None)
                        wanta.pop(k, None)
                got = {k: plain(a) for k, a in attrs.items()}
                wanta = {k: plain(a) for k, a in wanta.items()}
                if x["dtype"] == np.float32 and "_FillValue" in wanta:
                    wanta["_FillValue"] = float(np.float32(wanta["_FillValue"]))
                check(got == wanta, "{}: attributes {} instead of {}", what, got, wanta)
                if fmt.startswith("NETCDF4") and o["dims"]:
                    lev = w["exec"]["deflate"]
                    lev = fd.get("deflate", 2) if lev is None else lev
                    fl = x["filters"]
                    check(bool(fl["zlib"]) == (lev > 0) and (lev == 0 or fl["complevel"] == lev),
                          "{}: compression {} instead of level {}", what, fl, lev)
        W.verify_files(w, os.path.join(root, "out"), stt, env)


PROP = Prop(
    "C04",
    [Sub("header", cases, run, quick=1100)],
    rule="random worlds with 1-4 output files plus auxiliary, hidden, data, bounds and coordinates "
    "variables, metavars lists, all five formats, random attributes of several types, compression "
    "levels per file and overridden, history on and off; headers compared with an independent "
    "reading of the specification; non-trivial: some file holds several variables",
    assumptions=["netCDF4 reads back what it wrote"],
)
