"""C06: coordinates and data are reversed together"""
import os

from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Prop, Sub, check
from checks.c02_chunks import chunk_sizes
from pbt.gen import lengthen


@st.composite
def coordinate(draw, n):
    kind = draw(st.sampled_from(["up", "up", "down", "down", "any", "swap", "flat"]))
    steps = [draw(st.sampled_from([0.5, 1.0, 7.0, 1e-3])) for _ in range(n)]
    start = draw(st.sampled_from([-20.0, 0.0, 3.0]))
    v = [start]
    for s in steps[1:]:
        v.append(v[-1] + s)
    if kind == "down":
        v = v[::-1]
    elif kind == "any":
        v = list(draw(st.permutations(v)))
    elif kind == "swap" and n > 1:
        k = draw(st.integers(0, n - 2))
        v[k], v[k + 1] = v[k + 1], v[k]
        v = v[::draw(st.sampled_from([1, -1]))]
    elif kind == "flat" and n > 1:
        k = draw(st.integers(1, n - 1))
        v[k] = v[k - 1]
    return v


@st.composite
def cases(draw):
    dims = [[d, draw(st.sampled_from([1, 2, 3, 3, 4, 5, 7])), False] for d in draw(st.sampled_from(
        ["t", "z", "tz", "zy", "tzy", "tzy"]))]
    sizes = lengthen(draw, {d: n for d, n, _ in dims})
    dims = [[d, sizes[d], u] for d, _, u in dims]
    names = {"t": "time", "z": "lev", "y": "lat"}
    dmap = {d: names[d] for d in sizes}
    invars, outvars = [], []
    bad = draw(st.integers(0, 5)) == 0
    for d, n, _ in dims:
        v = draw(coordinate(n))
        if not bad and W.strictly(v) is None:
            v = sorted(set(v)) + [max(v) + 1 + k for k in range(n - len(set(v)))]
        invars.append({"name": "c" + d, "dims": [d], "dtype": "f8", "data": v, "mask": None,
                       "units": "m" if d != "t" else "days since 2000-01-01", "pos": None,
                       "cal": "noleap" if d == "t" else None, "files": [0]})
        a = {"axis": draw(st.sampled_from([d.upper()] * 5 + [d, "lat", ""]))}
        if d != "t":
            a["units"] = draw(st.sampled_from(["m", "cm"]))
        dirn = draw(st.sampled_from(["increasing", "decreasing", "increasing", "decreasing", None]))
        if bad and draw(st.integers(0, 2)) == 0:
            dirn = draw(st.sampled_from(["up", "Increasing", "", "decreasing "]))
        if dirn is not None:
            a["direction"] = dirn
        if draw(st.integers(0, 5)) == 0:
            a.pop("axis")
        t = W.V("c" + d)
        if d != "t":
            t = draw(st.sampled_from([t, t, W.OP("-", t), W.OP("*", W.NUM(-2), t)]))
            if draw(st.integers(0, 3)) == 0:
                # the direction follows from the values, whatever their sign convention
                invars[-1]["pos"] = "down"
                a["positive"] = draw(st.sampled_from(["up", "down"]))
        outvars.append({"name": dmap[d], "dims": [dmap[d]], "datatype": "double", "attrs": a,
                        "tree": t, "file": None})
    nv = draw(st.integers(1, 3))
    for j in range(nv):
        vd = draw(st.lists(st.sampled_from(sorted(sizes)), unique=True, min_size=0 if j else 1))
        n = 1
        for d in vd:
            n *= sizes[d]
        invars.append({"name": "v%d" % j, "dims": vd, "dtype": "f8", "data": [float(k) for k in range(n)],
                       "mask": None, "units": "1", "pos": None, "cal": None, "files": [0]})
        od = list(draw(st.permutations([dmap[d] for d in vd])))
        outvars.append({"name": "o%d" % j, "dims": od, "datatype": "double", "attrs": {"units": "1"},
                        "tree": W.V("v%d" % j),
                        "file": {"filename": "f%d.nc" % j} if j == 0 or draw(st.booleans()) else None})
    if draw(st.booleans()) and len(dims) > 0:
        d = draw(st.sampled_from(sorted(sizes)))
        dims.append(["b", 2, False])
        dmap["b"] = "bnds"
        invars.append({"name": "bnd", "dims": [d, "b"], "dtype": "f8",
                       "data": [float(k) for k in range(2 * sizes[d])], "mask": None,
                       "units": "m" if d != "t" else "days since 2000-01-01", "pos": None,
                       "cal": "noleap" if d == "t" else None, "files": [0]})
        outvars.append({"name": "obnd", "dims": [dmap[d], "bnds"], "datatype": "double", "attrs": {},
                        "tree": W.V("bnd"), "file": None})
        for o in outvars:
            if o["name"] == dmap[d]:
                o["attrs"]["bounds"] = "obnd"
    if draw(st.integers(0, 3)) == 0:
        # another coordinate of the same dimension, with a direction of its own
        d = draw(st.sampled_from([x for x in sizes if x != "t"] or ["t"]))
        if d != "t":
            outvars.append({"name": "aux", "dims": [dmap[d]], "datatype": "double", "tree": draw(st.sampled_from([W.V("c" + d), W.OP("-", W.V("c" + d))])),
                            "attrs": {"axis": "Z", "units": "m", "direction": draw(st.sampled_from(["increasing", "decreasing"]))}, "file": None})
    # a coordinate on another input variable's dimension must be mapped by itself: coordinates first
    w = {"dims": dims, "dmap": dmap, "nfiles": 1, "invars": invars, "outvars": outvars, "exec": {}}
    if draw(st.booleans()):
        used = {d for o in outvars if o["file"] for d in o["dims"]}
        w["exec"]["chunks"] = draw(chunk_sizes(w, used))
    w["exec"]["history"] = draw(st.booleans())
    return w


def run(w, stt):
    env = W.env_of(w)
    byname = {o["name"]: o for o in w["outvars"]}
    with W.scratch() as root:
        W.write_inputs(w, root)
        refuse = None
        for name in W.own_files(w):
            asked = {}
            for v in W.file_vars(w, name):
                o = byname[v]
                if len(o["dims"]) == 1 and "axis" in o["attrs"] and "direction" in o["attrs"]:
                    m, _ = W.expected(w, o, env)
                    if o["attrs"]["direction"] not in ("increasing", "decreasing"):
                        refuse = v, "invalid direction {!r}".format(o["attrs"]["direction"])
                    elif W.strictly(m.val) is None:
                        refuse = v, "values {} without a direction".format(m.val.tolist())
                    elif len(m.val) > 1 and asked.setdefault(o["dims"][0], W.strictly(m.val) == o["attrs"]["direction"]) != (W.strictly(m.val) == o["attrs"]["direction"]):
                        refuse = v, "a direction that asks for the opposite of another coordinate's"
                        stt.event("opposite directions")
        if refuse:
            stt.event("refused")
            stt.nt()
            try:
                W.execute(w, root)
            except Exception:
                return
            check(False, "coordinate {} with {} has to be refused", *refuse)
        W.execute(w, root)
        W.verify_files(w, root, stt, env)
        for name, fn in W.own_files(w).items():
            f = W.read_file(os.path.join(root, fn))
            stt.nt(bool(W.inverted_dims(w, f["vars"], env)))
            for v, x in f["vars"].items():
                o = byname[v]
                if len(o["dims"]) == 1 and "axis" in o["attrs"] and "direction" in o["attrs"]:
                    got = x["data"].tolist()
                    want = sorted(got, reverse=o["attrs"]["direction"] == "decreasing")
                    check(got == want and len(set(got)) == len(got), "{} is {}, not {}", v, got,
                          o["attrs"]["direction"])
                    stt.event("direction asked")
                if w["exec"]["history"]:
                    inv = W.inverted_dims(w, f["vars"], env).intersection(o["dims"])
                    check(("invdims" in x["attrs"]["history"]) == bool(inv),
                          "{}: history {!r}, reversed dimensions {}", v, x["attrs"]["history"], inv)
    if w["exec"].get("chunks"):
        stt.event("chunked")


PROP = Prop(
    "C06",
    [Sub("direction", cases, run, quick=1500)],
    rule="files with 1-3 coordinates (increasing, decreasing, unordered, constant; scaled or "
    "negated by their definition; positive flipped; with or without axis), asked directions of "
    "both kinds, none or invalid, data and bounds variables on any subset and order of the "
    "dimensions, chunked or not; non-trivial: some dimension has to be reversed, or the file refused",
    assumptions=["netCDF4 reads back what it wrote"],
)
