"""C07: fluxes change sign exactly when the positive direction changes"""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt import refeval
from pbt import world as W
from pbt.core import Prop, Sub, check
from pbt.gen import lengthen

REDUCTIONS = ["mean", "sum", "min", "max"]
FLUX = ["W m-2", "kW m-2", "J s-1 cm-2"]


@st.composite
def trees(draw, names, depth):
    k = draw(st.sampled_from(["leaf", "up", "down", "up", "down", "+", "-", "*", "/", "neg", "scale",
                              "reduce", "reduce", "limit", "units", "sqrt"] if depth else ["leaf"]))
    if k == "leaf":
        return W.V(draw(st.sampled_from(names)))
    t = draw(trees(names, depth - 1))
    if k in ("up", "down"):
        return W.F(k, t)
    if k == "neg":
        return W.OP("-", t)
    if k == "scale":
        return W.OP("*", W.NUM(draw(st.sampled_from([2, -1, 0.5]))), t)
    if k == "reduce":
        over = draw(st.lists(st.sampled_from("txz"), min_size=1, max_size=2, unique=True))
        return W.F(draw(st.sampled_from(REDUCTIONS)), t, *[W.STR(d) for d in over])
    if k == "units":
        f = draw(st.sampled_from(["rmunits", "chunits", "chunits1"]))
        if f == "chunits":
            return W.F("chunits", t, units=W.STR(draw(st.sampled_from(FLUX))))
        return W.F("chunits", t, units=W.STR("1")) if f == "chunits1" else W.F("rmunits", t)
    if k == "sqrt":
        return W.F("sqrt", W.OP("*", t, t))
    if k == "limit":
        return W.F("limit", t, below=W.NUM(-1), above=W.NUM(2))
    return W.OP(k, t, draw(trees(names, depth - 1)))


@st.composite
def cases(draw):
    dims = [["t", draw(st.integers(1, 3)), False], ["x", draw(st.integers(1, 3)), False],
            ["z", draw(st.integers(1, 3)), False]]
    sizes = lengthen(draw, {d: n for d, n, _ in dims})
    dims = [[d, sizes[d], u] for d, _, u in dims]
    invars = []
    for j in range(draw(st.integers(1, 4))):
        vd = draw(st.sampled_from([["t", "x"], ["t", "z", "x"], ["z", "x", "t"], ["x", "t"], ["t"],
                                  ["x"], []]))
        p = draw(N.phys(sizes, dims=vd, units=FLUX, dtypes=("f8", "f8", "f4", "i4"), positive=True))
        invars.append({"name": "v%d" % j, "dims": vd, "dtype": p["dtype"], "data": p["data"],
                       "mask": p["mask"], "units": p["units"], "cal": None, "files": [0],
                       "pos": draw(st.sampled_from(["up", "down", "down", None]))})
        if invars[-1]["pos"] and draw(st.integers(0, 4)) == 0:
            # in any case
            invars[-1]["posattr"] = draw(st.sampled_from([str.upper, str.capitalize]))(invars[-1]["pos"])
    for d in "txz":
        invars.append({"name": "c" + d, "dims": [d], "dtype": "f8", "data": list(range(sizes[d])),
                       "mask": None, "units": "1", "pos": None, "cal": None, "files": [0],
                       "coord": True})
    w = {"dims": dims, "dmap": {"t": "time", "x": "lon", "z": "lev"}, "nfiles": 1, "invars": invars, "outvars": [],
         "exec": {}}
    env = W.env_of(w)
    names = [v["name"] for v in invars if not v.get("coord")]
    outs = []
    for d in "txz":
        outs.append({"name": w["dmap"][d], "dims": [w["dmap"][d]], "datatype": "double", "file": None,
                     "attrs": {"units": "1"}, "tree": W.V("c" + d)})
    for j in range(draw(st.integers(1, 3))):
        t = draw(trees(names, draw(st.integers(0, 3))))
        try:
            m = refeval.evaluate(t, env)
        except (N.Refuse, TypeError):
            t = W.V(names[0])
            m = env[names[0]]
        od = draw(st.permutations([w["dmap"][d] for d in m.dims]))
        units = None
        if draw(st.booleans()):
            units = str(m.units)
            cands = [u for u in FLUX if W.Unit(u).is_convertible(m.units)]
            if cands:
                units = draw(st.sampled_from(cands))
        dt = draw(st.sampled_from(["double", "double", "float"]))
        # the same definition with every way to ask for a direction
        for suffix in draw(st.permutations(["up", "down", "none"])):
            attrs = {} if suffix == "none" else {"positive": suffix}
            if draw(st.integers(0, 5)) == 0:
                attrs = {"positive": {"none": "", "up": "Up", "down": "DOWN"}[suffix]}
            if units:
                attrs["units"] = units
            outs.append({"name": "o%d%s" % (j, suffix), "dims": list(od), "datatype": dt,
                         "attrs": attrs, "tree": t, "file": {"filename": "o%d%s.nc" % (j, suffix)}})
    w["outvars"] = outs
    if draw(st.integers(0, 2)) == 0 and any("lon" in o["dims"] for o in outs if o["file"]):
        w["exec"]["chunks"] = [["lon", draw(st.integers(1, 3))]]
    w["n"] = j + 1
    return w


def run(w, stt):
    env = W.env_of(w)
    with W.scratch() as root:
        W.write_inputs(w, root)
        if w["exec"].get("chunks") and any(r + "(" in W.render(o["tree"]) for r in REDUCTIONS for o in w["outvars"]):
            w["exec"]["chunks"] = []
        W.execute(w, root)
        for j in range(w["n"]):
            o = [x for x in w["outvars"] if x["name"] == "o%dup" % j][0]
            t = W.render(o["tree"])
            m = refeval.evaluate(o["tree"], env)
            f = {s: W.read_file(os.path.join(root, "o%d%s.nc" % (j, s))) for s in ("up", "down", "none")}
            got = {s: f[s]["vars"]["o%d%s" % (j, s)] for s in f}
            vals = {s: np.ma.filled(got[s]["data"].astype(float), 0) for s in got}
            what = "{} (direction {}, {})".format(t, m.pos, o["attrs"])
            for s in ("up", "down"):
                check(got[s]["attrs"].get("positive", "").lower() == s, "{}: attribute positive {} instead of {}",
                      what, got[s]["attrs"].get("positive"), s)
                sign = -1 if m.pos is not None and m.pos != s else 1
                check(np.array_equal(vals[s], sign * vals["none"]), "{} written with positive {}: {}, "
                      "without: {}", what, s, vals[s].tolist(), vals["none"].tolist())
                if sign < 0:
                    stt.nt()
                    stt.event("sign changed")
                elif m.pos is None:
                    stt.event("no direction known")
                else:
                    stt.event("direction as asked for")
        W.verify_files(w, root, stt, env)


PROP = Prop(
    "C07",
    [Sub("positive", cases, run, quick=600)],
    rule="fluxes with direction up, down or none (1-4 input variables of 0-3 dimensions, missing "
    "values, three units, f8/f4/i4); definitions of depth up to 3 over up(), down(), arithmetic, "
    "negation, reductions, roots, limits and changes of units; each written with positive up, down and without, in other units and "
    "with permuted dimensions, chunked or not; compared with the reference evaluation and with each "
    "other; non-trivial: some output needs a change of sign",
)
