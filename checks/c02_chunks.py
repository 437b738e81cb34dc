"""C02: what is written does not depend on how it is chunked"""
import os
import shutil
import warnings
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check
from pbt.gen import lengthen


def reduced(w):
    """output dimensions that some definition reduces over"""
    out = set()
    for o in w["outvars"]:
        if "tree" not in o:
            continue
        for t in W.subtrees(o["tree"]):
            if t.get("f") in ("mean", "sum", "min", "max"):
                out.update(w["dmap"].get(a["s"], a["s"]) for a in t["a"][1:])
    return out


def mapped(w):
    """output dimensions that are mapped to input dimensions"""
    return {d for o in w["outvars"] if "tree" in o and o["file"] for d in o["dims"]}


@st.composite
def chunk_sizes(draw, w, allowed):
    sizes = {w["dmap"][d]: n for d, n, _ in w["dims"]}
    dims = sorted(d for d in allowed if d in sizes)
    use = draw(st.lists(st.sampled_from(dims), unique=True, min_size=1)) if dims else []
    return [[d, draw(st.integers(1, sizes[d] + 1))] for d in use]


@st.composite
def cases(draw):
    w = draw(W.worlds(
        inp={"maxsize": 5, "ndims": (1, 3)},
        out={"refuse": False, "directions": True, "reduce": draw(st.integers(0, 3)) == 0,
             "formats": ("NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_CLASSIC")}))
    w["exec"]["chunks"] = draw(chunk_sizes(w, mapped(w) - reduced(w)))
    w["exec"]["history"] = draw(st.booleans())
    w["again"] = draw(st.integers(0, 4)) == 0
    return w


def run(w, stt):
    if not w["exec"]["chunks"]:
        raise Discard("nothing to chunk")
    try:
        for o in w["outvars"]:
            W.expected(w, o)
    except N.Refuse:
        raise Discard("has to be refused")
    with W.scratch() as root:
        W.write_inputs(w, root)
        a, b = os.path.join(root, "a"), os.path.join(root, "b")
        W.execute(dict(w, exec=dict(w["exec"], chunks=[])), root, out=a)
        flow = W.make_flow(w, root, out=b)
        if w["again"]:
            # the same flow, with other chunks, once more
            W.execute(dict(w, exec=dict(w["exec"], chunks=w["exec"]["chunks"][:1])), root, flow=flow)
            shutil.rmtree(b)
            stt.event("executed twice")
        W.execute(w, root, flow=flow)
        fa, fb = sorted(os.listdir(a)), sorted(os.listdir(b))
        check(fa == fb, "files {} unchunked, {} chunked", fa, fb)
        check(fa == sorted(W.own_files(w).values()), "files {}", fa)
        for fn in fa:
            W.same_files(W.read_file(os.path.join(a, fn)), W.read_file(os.path.join(b, fn)),
                         "{} unchunked / chunked by {}".format(fn, w["exec"]["chunks"]))
        W.verify_files(w, b, stt)
    sizes = {w["dmap"][d]: n for d, n, _ in w["dims"]}
    real = [d for d, n in w["exec"]["chunks"] if n < sizes[d]]
    stt.nt(bool(real))
    if len(real) > 1:
        stt.event("several chunked dimensions")
    if any(sizes[d] % n for d, n in w["exec"]["chunks"]):
        stt.event("remainder chunk")


TWINS = {"x": "a", "y": "b", "z": "c", "a": "x", "b": "y", "c": "z"}


@st.composite
def definition(draw, dims, depth):
    """a definition of data on named dimensions: a list of functions to apply"""
    ops = []
    for _ in range(depth):
        kind = draw(st.sampled_from(["anom", "cumul", "chdims", "chdims", "add", "diff", "mean", "chunits", "with", "with"]))
        if kind in ("anom", "cumul", "diff"):
            ops.append([kind, draw(st.sampled_from(dims))])
        elif kind == "mean" and len(dims) > 1:
            ops.append([kind, draw(st.sampled_from(dims))])
            dims = [d for d in dims if d != ops[-1][1]]
        elif kind == "with":
            ops.append([kind, draw(st.sampled_from(dims))])
        elif kind == "chdims":
            new = [TWINS[d] if draw(st.booleans()) else d for d in dims]
            ops.append([kind, new])
            dims = new
        elif kind in ("add", "chunits"):
            ops.append([kind])
    return ops, dims


@st.composite
def dependents(draw):
    sizes = lengthen(draw, {d: draw(st.integers(1, 5)) for d in "xyz"})
    outs = []
    for k in range(draw(st.integers(1, 3))):
        dims = list(draw(st.permutations(["x", "y", "z"])))[: draw(st.integers(1, 3))]
        ops, last = draw(definition(dims, draw(st.integers(1, 5))))
        outs.append({"dims": dims, "ops": ops, "last": last, "order": list(draw(st.permutations(last)))})
    used = sorted({d for o in outs for d in o["last"]})
    size = dict(sizes, **{TWINS[d]: sizes[d] for d in "xyz"})
    chunks = [[d, draw(st.integers(1, size[d] + 1))] for d in draw(st.lists(st.sampled_from(used), unique=True, min_size=1))]
    return {"sizes": sizes, "outs": outs, "chunks": chunks, "seed": draw(st.integers(0, 99))}


def functions():
    """functions of data that need all of a dimension, and keep it"""
    from pyconform import functions as F

    if not hasattr(F, "_pbt_dependent"):
        def make(name, of):
            class Dependent(F.Function):
                key = name

                def __init__(self, data, dim):
                    super(Dependent, self).__init__(data, dim)
                    self.add_sumlike_dimensions(dim)

                def __getitem__(self, index):
                    from pyconform.physarray import PhysArray

                    data = self.arguments[0][index]
                    if index is None:
                        return data
                    k = data.dimensions.index(self.arguments[1])
                    return PhysArray(of(np.asarray(data), k), dimensions=data.dimensions, units=data.units, name=name, positive=data.positive)
            return Dependent

        class Plus(F.Function):
            key = "pbt_plus"

            def __init__(self, data, other=None):
                super(Plus, self).__init__(data, other=other)

            def __getitem__(self, index):
                return self.arguments[0][index] + self.keywords["other"][index]

        F._pbt_dependent = [Plus] + [make("pbt_" + k, f) for k, f in FUNS.items()]


FUNS = {"anom": lambda v, k: v - v.mean(axis=k, keepdims=True), "cumul": lambda v, k: np.cumsum(v, axis=k),
        "diff": lambda v, k: v - np.take(v, [0], axis=k)}


def run_dependents(c, stt):
    from netCDF4 import Dataset
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    functions()
    size = dict(c["sizes"], **{TWINS[d]: c["sizes"][d] for d in "xyz"})
    rng = np.random.RandomState(c["seed"])
    spec, want, touched = OrderedDict(), {}, set()
    with W.scratch() as root:
        with Dataset(os.path.join(root, "in.nc"), "w") as nc:
            for d in sorted(size):
                nc.createDimension(d, size[d])
            nc.createVariable("twins", "f8", ("a", "b", "c"))[...] = 0.0
            for k, o in enumerate(c["outs"]):
                val = rng.randint(-20, 20, tuple(size[d] for d in o["dims"])) * 1.0
                v = nc.createVariable("v%d" % k, "f8", tuple(o["dims"]))
                v[...] = val
                v.units = "m"
                text, dims = "v%d" % k, list(o["dims"])
                for op in o["ops"]:
                    if op[0] in FUNS:
                        text = "pbt_{}({}, '{}')".format(op[0], text, op[1])
                        val = FUNS[op[0]](val, dims.index(op[1]))
                        touched.add(op[1])
                    elif op[0] == "with":
                        # (given by keyword)
                        text = "pbt_plus({0}, other=pbt_anom({0}, '{1}'))".format(text, op[1])
                        val = val + FUNS["anom"](val, dims.index(op[1]))
                        touched.add(op[1])
                    elif op[0] == "mean":
                        text = "mean({}, '{}')".format(text, op[1])
                        val = val.mean(axis=dims.index(op[1]))
                        dims.remove(op[1])
                        touched.add(op[1])
                    elif op[0] == "chdims":
                        text = "chdims({}, {})".format(text, ", ".join(repr(str(d)) for d in op[1]))
                        dims = list(op[1])
                        touched.update(b for a, b in TWINS.items() if a in touched)
                    elif op[0] == "add":
                        text, val = "({0} + {0})".format(text), val + val
                    else:
                        text = "chunits({}, units='m')".format(text)
                want["o%d" % k] = val.transpose([dims.index(d) for d in o["order"]])
                # (the dimensions are mapped in the order of the definition, by a variable of their own)
                spec["o%d" % k] = {"definition": text, "dimensions": [d.upper() for d in o["order"]], "datatype": "double",
                                   "attributes": {"units": "m"}, "file": {"filename": os.path.join(root, "o%d.nc" % k)}}
            for d in sorted(size):
                nc.createVariable(d, "f8", (d,))[...] = np.arange(size[d])
                spec[d.upper()] = {"definition": d, "dimensions": [d.upper()], "datatype": "double", "attributes": {"axis": "X", "units": "1"}}
        what = "{} chunked by {}".format([(o["definition"], o["dimensions"]) for o in spec.values() if "file" in o], c["chunks"])

        def read(where):
            for n in want:
                with Dataset(os.path.join(root, n + ".nc")) as nc:
                    x = np.ma.array(nc[n][...])
                check(x.shape == want[n].shape and not np.ma.getmaskarray(x).any() and np.allclose(x.data, want[n], rtol=1e-9, atol=1e-9),
                      "{}{}: {} is {} instead of {}", what, where, n, x.tolist(), want[n].tolist())
                os.remove(os.path.join(root, n + ".nc"))

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            flow = DataFlow(InputDatasetDesc("in", filenames=[os.path.join(root, "in.nc")]), OutputDatasetDesc("out", dsdict=spec))
            flow.execute(serial=True)
        read(" (not chunked yet)")
        try:
            flow.execute(serial=True, chunks=OrderedDict((d.upper(), n) for d, n in c["chunks"]))
        except ValueError:
            check(any(d in touched for d, _ in c["chunks"]), "{}: refused", what)
            stt.event("refused")
        else:
            read("")
            stt.event("executed")
    stt.nt(any(n < size[d] for d, n in c["chunks"]))


@st.composite
def many(draw):
    """two long dimensions, in many chunks"""
    big = st.sampled_from([10, 11, 12, 13, 21, 24])
    sizes = {"x": draw(big), "y": draw(big), "z": draw(st.integers(1, 3))}
    outs = []
    for _ in range(draw(st.integers(1, 3))):
        dims = list(draw(st.permutations(["x", "y", "z"])))[: draw(st.sampled_from([2, 3, 3]))]
        outs.append({"dims": dims, "order": list(draw(st.permutations(dims)))})
    near = {d: st.sampled_from([1, 1, 2, 3, sizes[d] - 1, sizes[d], sizes[d] + 1, max(1, sizes[d] // 2)]) for d in sizes}
    near["z"] = st.sampled_from([1, 2])
    chunks = [[d, max(1, draw(near[d]))] for d in draw(st.permutations(["x", "y", "z"]))[: draw(st.sampled_from([1, 2, 2, 3]))]
              if any(d in o["dims"] for o in outs)]
    while chunks and np.prod([-(-sizes[d] // n) for d, n in chunks]) > 200:
        k = int(np.argmax([sizes[d] // n for d, n in chunks]))
        chunks[k][1] += 1
    return {"sizes": sizes, "outs": outs, "chunks": chunks,
            "down": {d: draw(st.sampled_from([None, False, True])) for d in "xyz"},
            "unlimited": draw(st.sampled_from([None, None, "x", "y"])), "fmt": draw(st.sampled_from(["NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF4"]))}


def run_many(c, stt):
    from netCDF4 import Dataset
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    size = c["sizes"]
    spec, want = OrderedDict(), {}
    with W.scratch() as root:
        with Dataset(os.path.join(root, "in.nc"), "w") as nc:
            for d in sorted(size):
                nc.createDimension(d, None if d == c["unlimited"] else size[d])
            for d in sorted(size):
                nc.createVariable(d, "f8", (d,))[...] = np.arange(size[d])
            for k, o in enumerate(c["outs"]):
                shape = tuple(size[d] for d in o["dims"])
                val = np.arange(np.prod(shape), dtype=float).reshape(shape) + 1e4 * k
                v = nc.createVariable("v%d" % k, "f8", tuple(o["dims"]))
                v[...] = val
                v.units = "m"
                val = val.transpose([o["dims"].index(d) for d in o["order"]])
                for j, d in enumerate(o["order"]):
                    if c["down"][d] and size[d] > 1:
                        val = np.flip(val, j)
                want["o%d" % k] = val
                spec["o%d" % k] = {"definition": "v%d" % k, "dimensions": [d.upper() for d in o["order"]], "datatype": "double",
                                   "attributes": {"units": "m"},
                                   "file": {"filename": os.path.join(root, "o%d.nc" % k), "format": "NETCDF4" if c["unlimited"] else c["fmt"]}}
        for d in sorted(size):
            spec[d.upper()] = {"definition": d, "dimensions": [d.upper()], "datatype": "double", "attributes": {"axis": "X", "units": "1"}}
            if c["down"][d] is not None and size[d] > 1:
                spec[d.upper()]["attributes"]["direction"] = "decreasing" if c["down"][d] else "increasing"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            flow = DataFlow(InputDatasetDesc("in", filenames=[os.path.join(root, "in.nc")]), OutputDatasetDesc("out", dsdict=spec))
            flow.execute(serial=True, chunks=OrderedDict((d.upper(), n) for d, n in c["chunks"]))
        for n, o in zip(sorted(want), c["outs"]):
            with Dataset(os.path.join(root, n + ".nc")) as nc:
                x = np.ma.array(nc[n][...])
                crd = {d: np.ma.array(nc[d.upper()][...]) for d in o["order"]}
            what = "{} of sizes {} in chunks {}".format(o, size, c["chunks"])
            check(x.shape == want[n].shape, "{}: shape {}", what, x.shape)
            bad = np.ma.getmaskarray(x) | (x.data != want[n])
            check(not bad.any(), "{}: wrong at {}", what, np.argwhere(bad)[:5].tolist())
            for d in crd:
                w = np.arange(size[d])[::-1 if c["down"][d] and size[d] > 1 else 1]
                check(not np.ma.getmaskarray(crd[d]).any() and crd[d].tolist() == w.tolist(), "{}: coordinate {} is {}", what, d, crd[d].tolist())
    stt.nt(any(n < size[d] for d, n in c["chunks"]))
    if np.prod([-(-size[d] // n) for d, n in c["chunks"]]) > 50:
        stt.event("more than 50 chunks")


PROP = Prop(
    "C02",
    [Sub("chunks", cases, run, quick=1500), Sub("dependent", dependents, run_dependents, quick=1000), Sub("many", many, run_many, quick=60)],
    rule="random worlds (see C01; dimensions up to 5, coordinates with asked directions) executed "
    "without chunks and with random chunk sizes (1 to size+1) of a random subset of the mapped, "
    "not reduced output dimensions in random order, some flows executed twice with different "
    "chunks; files compared with each other and with the reference; files with two dimensions of 10-24 in up to 200 chunks; functions of a whole dimension "
    "that keep it, among others and renamed dimensions: refused, or the same as without chunks; non-trivial: some chunk is "
    "smaller than its dimension",
    assumptions=["netCDF4 reads back what it wrote"],
)
