"""C08: out-of-range values are masked and reported, others are left alone"""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Prop, Sub, check

KEYS = ["valid_min", "valid_max", "ok_min_mean_abs", "ok_max_mean_abs"]


def exact(w, o):
    """written values are bit for bit the input values"""
    if "v" not in o.get("tree", {}) or o["datatype"] == "float":
        return False
    v = [x for x in w["invars"] if x["name"] == o["tree"]["v"]][0]
    return v["cal"] is None and o["attrs"].get("units") in (None, v["units"], "", "?")


def candidates(w, o):
    """limits that separate the values (0 and values themselves among them)"""
    m, scale = W.expected(w, o)
    vals = np.unique(m.val[~m.mask]).tolist()
    tol = 1e-5 * scale
    out = [0, 0.0, 1, -1, 1e6, -1e6]
    out += [(a + b) / 2 for a, b in zip(vals, vals[1:])]
    if vals:
        out += [vals[0] - max(1.0, 2 * tol), vals[-1] + max(1.0, 2 * tol)]
    if exact(w, o):
        return out + 3 * vals
    return [x for x in out if all(abs(x - v) > tol for v in vals)]


def as_text(draw, x):
    """MIP tables give limits as text"""
    return repr(float(x)) if draw(st.integers(0, 4)) == 0 else x


def number(x):
    return float(x) if isinstance(x, str) else x


@st.composite
def cases(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3, "nvars": (1, 3)},
                      out={"nvars": (1, 3), "depth": 1, "datavars": False, "bounds": False}))
    for o in w["outvars"]:
        if "tree" not in o or not o["file"] or o["datatype"] == "int":
            continue
        c = candidates(w, o)
        for k in ("valid_min", "valid_max"):
            if c and draw(st.integers(0, 3)):
                o["attrs"][k] = as_text(draw, draw(st.sampled_from(c)))
        m, scale = W.expected(w, o)
        av = masked(o, m)
        mean = float(np.abs(av).mean()) if av.count() else None
        for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
            if draw(st.integers(0, 2)) == 0:
                c = [0, 0.0, 1.0, 1e6, 1e-6]
                if mean is not None:
                    c = [x for x in c + [mean * 0.5, mean * 2 + 1] if abs(x - mean) > 1e-5 * scale]
                if c:
                    o["attrs"][k] = as_text(draw, draw(st.sampled_from(c)))
    if draw(st.integers(0, 2)) == 0:
        ds = sorted({d for o in w["outvars"] if o["file"] for d in o["dims"]})
        reduced = any(f + "(" in W.render(o["tree"]) for o in w["outvars"] if "tree" in o
                      for f in ("mean", "sum", "min", "max"))
        if ds and not reduced:
            w["exec"]["chunks"] = [[draw(st.sampled_from(ds)), draw(st.integers(1, 3))]]
    return w


def masked(o, m):
    lo, hi = number(o["attrs"].get("valid_min")), number(o["attrs"].get("valid_max"))
    bad = np.zeros(m.val.shape, bool)
    if lo is not None:
        bad |= m.val < lo
    if hi is not None:
        bad |= m.val > hi
    return np.ma.array(m.val, mask=m.mask | bad)


def run(w, stt):
    env = W.env_of(w)
    with W.scratch() as root:
        W.write_inputs(w, root)
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            flow = W.make_flow(w, root)
        ws = W.execute(w, root, flow=flow)
        from pyconform.flownodes import ValidationWarning

        said = {}
        for x in ws:
            if issubclass(x.category, ValidationWarning):
                t = str(x.message)
                hit = [(k, o["name"]) for k in KEYS for o in w["outvars"]
                       if t.startswith(k + ":") and "'%s'" % o["name"] in t]
                check(len(hit) == 1, "validation warning {!r}", t)
                said[hit[0]] = said.get(hit[0], 0) + 1
        chunked = bool(w["exec"].get("chunks"))
        for o in w["outvars"]:
            if not o["file"]:
                continue
            f = W.read_file(os.path.join(root, o["file"]["filename"]))
            x = f["vars"][o["name"]]
            m, scale = W.expected(w, o, env)
            inv = W.inverted_dims(w, f["vars"], env)
            lims = {k: o["attrs"][k] for k in KEYS if k in o["attrs"]}
            what = "{} = {!r} {}".format(o["name"], W.render(o["tree"]), lims)
            for k in lims:
                check(x["attrs"].get(k) == lims[k], "{}: attribute {}", what, x["attrs"].get(k))
            if any(isinstance(v, str) for v in lims.values()):
                stt.event("limits as text")
            lims = {k: number(v) for k, v in lims.items()}
            lo, hi = lims.get("valid_min"), lims.get("valid_max")
            below = (m.val < lo) & ~m.mask if lo is not None else np.zeros(m.val.shape, bool)
            above = (m.val > hi) & ~m.mask if hi is not None else np.zeros(m.val.shape, bool)
            full = m.like(m.val, mask=m.mask | below | above)
            if (below | above).any():
                stt.nt()
                stt.event("masked values")
            if lims and ((m.val == lims.get("valid_min")) | (m.val == lims.get("valid_max"))).any():
                stt.event("value equal to a limit")
                stt.nt()
            W.compare_var(o, full, scale, x["data"], what)
            # a value below the minimum is missing before the maximum is looked at
            for k, bad in (("valid_min", below), ("valid_max", above & ~below)):
                want = bool(bad.any())
                check(((k, o["name"]) in said) == want, "{}: values {}, {} {}: {} warning", what,
                      m.val.tolist(), k, lims.get(k), "no" if want else "unnecessary")
            if chunked:
                continue
            rest = m.val[~full.mask]
            mean = float(np.abs(rest).mean()) if rest.size else None
            for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
                b = lims.get(k)
                want = False
                if b is not None and mean is not None:
                    want = mean < b if k == "ok_min_mean_abs" else mean > b
                if want:
                    stt.event("mean not acceptable")
                check(((k, o["name"]) in said) == want, "{}: mean absolute value {}, {} {}: {} warning",
                      what, mean, k, b, "no" if want else "unnecessary")


# ------------------------------------------------------------------ a single node, all numbers
SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 7.0, 1e-30, -1e-30, 1e30, "nan", "inf", "-inf"]


@st.composite
def node_cases(draw):
    dt = draw(st.sampled_from(["f8", "f8", "f4", "i4", "i2"]))
    vals = SPECIAL if dt[0] == "f" else [0, 1, -1, 2, -2, 7, 100, -100]
    shape = draw(st.sampled_from([[], [1], [3], [4], [2, 3]]))
    n = int(np.prod(shape))
    c = {"dtype": dt, "shape": shape, "data": [draw(st.sampled_from(vals)) for _ in range(n)],
         "mask": [draw(st.integers(0, 4)) == 0 for _ in range(n)], "attrs": {}}
    lims = [0, 0.0, 1, -1, 1.0, -1.0, 2.5, -2.5, 7, 100, -100, 1e-30, -0.5, 0.5, 1e31, -1e31]
    for k in ("valid_min", "valid_max"):
        if draw(st.integers(0, 3)):
            c["attrs"][k] = draw(st.sampled_from(lims + ["", "0", "-1.0", "2.5", "1e31"]))
    for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
        if draw(st.integers(0, 3)) == 0:
            c["attrs"][k] = draw(st.sampled_from([0, 0.0, 0.3, 1.7, 23.0, 1e31, "", "1.7"]))
    if dt[0] == "f" and draw(st.integers(0, 4)) == 0:
        # a mean that is known exactly, and limits that are it
        x = draw(st.sampled_from([1.0, 2.5, 7.0, 0.0]))
        c["data"] = [draw(st.sampled_from([x, -x])) for _ in range(n)]
        c["exact"] = True
        for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
            c["attrs"][k] = draw(st.sampled_from([x, x, x + 1, x - 0.5]))
    return c


def node_run(c, stt):
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import DataNode, ValidateNode
    from pyconform.physarray import PhysArray

    data = np.array([float(x) for x in c["data"]], dtype=c["dtype"]).reshape(c["shape"])
    mask = np.array(c["mask"], bool).reshape(c["shape"])
    dims = tuple("d%d" % k for k in range(data.ndim))
    arr = PhysArray(np.ma.array(data, mask=mask), name="x", units="1", dimensions=dims)
    before = (arr.data.copy(), np.ma.getmaskarray(arr).copy())
    vd = VariableDesc("v", datatype={"f8": "double", "f4": "float", "i4": "int", "i2": "short"}[c["dtype"]],
                      dimensions=tuple(DimensionDesc(d, size=s) for d, s in zip(dims, c["shape"])),
                      attributes=dict(c["attrs"]))
    node = ValidateNode(vd, DataNode(arr))
    lims = {k: number(v) for k, v in c["attrs"].items() if v != ""}
    with np.errstate(all="ignore"):
        lo, hi = lims.get("valid_min"), lims.get("valid_max")
        below = (data < lo) & ~mask if lo is not None else np.zeros(data.shape, bool)
        above = (data > hi) & ~mask if hi is not None else np.zeros(data.shape, bool)
        full = mask | below | above
        rest = np.abs(data[~full].astype(float))
        mean = rest.mean() if rest.size else None
        want = set()
        if below.any():
            want.add("valid_min")
        if (above & ~below).any():
            want.add("valid_max")
        unsure = set()
        for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
            b = lims.get(k)
            if b is None or mean is None:
                continue
            if not c.get("exact") and np.isfinite(mean) and abs(mean - b) <= 1e-5 * max(abs(mean), abs(b)):
                unsure.add(k)
            if mean < b if k == "ok_min_mean_abs" else mean > b:
                want.add(k)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = node[...]
    said = {str(x.message).split(":")[0] for x in ws if x.category.__name__ == "ValidationWarning"}
    what = "values {} {} missing {}, limits {}".format(c["dtype"], data.tolist(), mask.tolist(), lims)
    gm = np.ma.getmaskarray(got)
    check(np.array_equal(gm, full), "{}: missing {} instead of {}", what, gm.tolist(), full.tolist())
    gv = np.ma.getdata(got)
    check(np.array_equal(gv[~full], data[~full], equal_nan=data.dtype.kind == "f"), "{}: values {}", what,
          gv.tolist())
    check((said ^ want) <= unsure, "{}: warnings {} instead of {}", what, sorted(said), sorted(want))
    check(np.array_equal(before[1], np.ma.getmaskarray(arr))
          and np.array_equal(before[0], arr.data, equal_nan=data.dtype.kind == "f"),
          "{}: the validated data themselves were changed", what)
    if below.any() or above.any():
        stt.nt()
        stt.event("masked values")
    if np.isnan(data.astype(float)).any():
        stt.event("NaN among the values")
    if (data == lo).any() or (data == hi).any():
        stt.nt()
        stt.event("value equal to a limit")


PROP = Prop(
    "C08",
    [Sub("node", node_cases, node_run, quick=3000),
     Sub("limits", cases, run, quick=700)],
    rule="specifications with valid_min/valid_max (0, negative, between values, equal to values, "
    "beyond all values) and acceptable mean absolute values, on computed, converted, flipped, "
    "transposed, chunked data with missing values; non-trivial: some value is out of range or equal "
    "to a limit",
)
