"""
Generated worlds: NetCDF input files, an output specification, and what has to come out.

A world is a JSON-able dictionary:

  dims     [[input name, size, unlimited], ...]
  dmap     {input dimension: output dimension}
  invars   [{name, dims, dtype, data, mask, units, pos, cal, attrs, files}, ...]
  nfiles   number of input files
  outvars  [{name, dims, datatype, attrs, tree | data, file}, ...]
  exec     {chunks: [[dim, n], ...], history, deflate}

`definitions` are kept as trees of pbt.refparser and rendered to text when the specification
is built, so that the reference evaluation does not depend on PyConform's parser.
"""
import contextlib
import itertools
import os
import shutil
import tempfile
import warnings
from collections import OrderedDict

import numpy as np
from cf_units import Unit
from hypothesis import strategies as st

from pbt import named as N
from pbt import refeval, refparser
from pbt.core import Violation, check
from pbt.gen import lengthen

# ------------------------------------------------------------------------- expressions
V = lambda n, *i: {"v": n, "i": list(i)}  # noqa: E731
NUM = lambda x: {"n": x}  # noqa: E731
STR = lambda s: {"s": s}  # noqa: E731
F = lambda f, *a, **k: {"f": f, "a": list(a), "k": sorted([x, y] for x, y in k.items())}  # noqa
OP = lambda o, *a: {"o": o, "a": list(a)}  # noqa: E731


def render(tree, extra=(0,)):
    toks = refparser.render(tree, itertools.cycle(list(extra)))[0]
    return refparser.join_tokens(toks, itertools.cycle([""]))


FAM = {
    "length": ["m", "cm", "km"],
    "temp": ["K", "degC", "degF"],
    "flux": ["W m-2", "kW m-2", "J s-1 cm-2"],
    "none": ["1", "%"],
    "press": ["Pa", "hPa", "mbar"],
    "area": ["m2", "cm2", "km2"],
}
CALENDARS = ["noleap", "standard", "360_day"]
TUNITS = ["days since 1850-01-01", "hours since 1850-01-01", "days since 1990-07-01",
          "seconds since 1999-12-30 12:00:00"]

IN2OUT = {"t": ["time", "t"], "z": ["lev", "plev", "z"], "y": ["lat", "j", "y"],
          "x": ["lon", "i", "x"], "b": ["bnds", "b"]}
FMTS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"]


@st.composite
def coordinate(draw, n, kind):
    """values of a one-dimensional coordinate, strictly monotonic"""
    if n == 0:
        return []
    start = draw(st.sampled_from([0.0, -3.0, 10.0]))
    steps = [draw(st.sampled_from([1.0, 0.5, 2.0, 30.0])) for _ in range(max(0, n - 1))]
    vals = [start]
    for s in steps:
        vals.append(vals[-1] + s)
    if kind != "t" and draw(st.booleans()):
        vals = vals[::-1]
    return vals


# how the data of an input variable are stored, which says nothing about them
STORES = ["missing_value", "default fill", "packed", "packed single", "big endian", "compressed", "big chunks"]


@st.composite
def inputs(draw, ndims=(1, 4), maxsize=4, nvars=(1, 5), nullable=True, positive=True,
           dtypes=("f8", "f8", "f8", "f4", "f4", "i4", "i4", "i2", "i1", "u1"), time_ok=True, families=None, names=None, empty=False, long=True):
    """the input side of a world"""
    names = list(names or "tzyx")
    k = draw(st.integers(ndims[0], min(ndims[1], len(names))))
    use = draw(st.permutations(names))[:k]
    use = sorted(use, key="tzyx".index)
    dims = []
    for d in use:
        dims.append([d, draw(st.integers(1, maxsize)), d == "t" and draw(st.booleans())])
        if empty and d == "t":
            # unlimited dimensions may have no elements yet
            dims[-1] = [d, 0, True]
    if long and not empty:
        more = lengthen(draw, {d: n for d, n, _ in dims}, 12)
        dims = [[d, more[d], u] for d, _, u in dims]
    if draw(st.integers(0, 5)) == 0 and len(dims) < 5:
        dims.append(["b", 2, False])
    # names of the dimensions on the output side; sometimes input names are re-used for
    # another dimension
    dmap = {}
    for d, _, _ in dims:
        dmap[d] = draw(st.sampled_from(IN2OUT[d]))
    if "y" in dmap and "x" in dmap and draw(st.integers(0, 9)) == 0:
        dmap["y"], dmap["x"] = "x", "y"
    elif "y" in dmap and "z" in dmap and draw(st.integers(0, 9)) == 0:
        dmap["y"], dmap["z"] = "z", dmap["y"] if dmap["y"] != "z" else "yy"
    sizes = {d: n for d, n, _ in dims}
    invars = []
    cal = draw(st.sampled_from(CALENDARS))
    for d, n, _ in dims:
        if d == "b":
            continue
        units = {"t": draw(st.sampled_from(TUNITS)) if time_ok else "days", "z": "m",
                 "y": "degrees_north", "x": "degrees_east"}[d]
        invars.append({
            "name": "c" + d, "dims": [d], "dtype": "f8", "data": draw(coordinate(n, d)),
            "mask": None, "units": units, "pos": None,
            "cal": cal if d == "t" and time_ok else None, "coord": True,
        })
    for j in range(draw(st.integers(*nvars))):
        fam = draw(st.sampled_from(families or list(FAM)))
        vd = draw(st.lists(st.sampled_from(list(sizes)), unique=True, max_size=len(sizes)))
        if draw(st.sampled_from([False, False, True])):
            vd = draw(st.permutations(list(sizes)))
        # the unlimited dimension comes first in classic files
        vd = list(vd)
        if "t" in vd:
            vd.remove("t")
            vd.insert(0, "t")
        p = draw(N.phys(sizes, dims=vd, units=FAM[fam], dtypes=dtypes, positive=positive,
                        masks=nullable))
        invars.append({
            "name": "v%d" % j, "dims": vd, "dtype": p["dtype"], "data": p["data"],
            "mask": p["mask"], "units": p["units"], "pos": p["pos"], "cal": None, "fam": fam,
            "store": draw(st.sampled_from([None] * 6 + STORES)),
        })
    nfiles = draw(st.integers(1, 3))
    for v in invars:
        if v.get("coord"):
            v["files"] = list(range(nfiles)) if draw(st.booleans()) else [0]
        else:
            v["files"] = [draw(st.integers(0, nfiles - 1))]
    return {"dims": dims, "dmap": dmap, "invars": invars, "nfiles": nfiles}


def in_model(v, world):
    sizes = {d: n for d, n, _ in world["dims"]}
    shp = [sizes[d] for d in v["dims"]]
    val = np.array(v["data"], dtype=v["dtype"]).reshape(shp)
    mask = None if v["mask"] is None else np.array(v["mask"], bool).reshape(shp)
    if v["units"] is None:
        units = Unit(1)
    else:
        units = Unit(v["units"], calendar=v["cal"])
    return N.NA(v["dims"], val, mask, units, v["pos"])


def env_of(world):
    """models of everything a definition can refer to"""
    env = {v["name"]: in_model(v, world) for v in world["invars"]}
    for o in world.get("outvars", []):
        if "data" in o and o["datatype"] != "char" and o["name"] not in env:
            env[o["name"]] = data_model(o)
    return env


NPTYPE = {"double": "f8", "float": "f4", "real": "f4", "int": "i4", "short": "i2", "byte": "i1",
          "char": "S1", "int64": "i8"}


def data_model(o):
    return N.NA(o["dims"], np.array(o["data"], dtype=NPTYPE[o["datatype"]]), None,
                Unit(o["attrs"].get("units"), calendar=o["attrs"].get("calendar")), None)


# ------------------------------------------------------------------ expression generation
@st.composite
def expressions(draw, world, depth=2, functions=True, reduce=True, index=True):
    """an expression whose reference evaluation is accepted: (tree, NA)"""
    env = env_of(world)
    data = [v["name"] for v in world["invars"] if not v.get("coord")]
    names = data if data and draw(st.integers(0, 9)) else list(env)
    if "d0" in env and draw(st.integers(0, 2)) == 0:
        names = data + ["d0"]

    def leaf():
        n = draw(st.sampled_from(names))
        t = V(n)
        m = env[n]
        k = draw(st.integers(0, 7 if n != "d0" else 2)) if index else 0
        if k == 1 and len(m.dims) > 0:
            # elements of dimensions, or reversed dimensions
            j = draw(st.integers(0, len(m.dims) - 1))
            idx = []
            for i in range(j + 1):
                s = m.val.shape[i]
                how = draw(st.sampled_from(["all", "all", "one", "back"] if i < j else ["one", "back"]))
                if how == "one" and s:
                    idx.append(NUM(draw(st.integers(-s, s - 1))))
                else:
                    idx.append({"sl": [None, None, NUM(-1) if how == "back" else None]})
            t = V(n, *idx)
            m = refeval.apply_index(m, idx)
        return t, m

    def const():
        return draw(st.sampled_from([2, 0.5, -1, 3, 10.0, 1.5]))

    def node(d):
        if d == 0:
            return leaf()
        kind = draw(st.sampled_from(
            ["leaf", "add", "add", "add", "mulc", "mul", "div", "neg", "pow"]
            + (["fun", "fun", "fun"] if functions else [])
            + (["red"] if reduce else [])))
        t, m = node(d - 1)
        try:
            if kind == "leaf":
                return t, m
            if kind == "add":
                t2, m2 = node(d - 1)
                if not m2.units.is_convertible(m.units) or m.units.is_time_reference():
                    return t, m
                op = draw(st.sampled_from("+-"))
                return OP(op, t, t2), N.binop(op, m, m2)
            if kind == "mulc":
                c = const()
                op = draw(st.sampled_from("*/"))
                if op == "*" and draw(st.booleans()):
                    return OP("*", NUM(c), t), N.binop("*", N.NA((), c), m)
                return OP(op, t, NUM(c)), N.binop(op, m, N.NA((), c))
            if kind in ("mul", "div"):
                t2, m2 = node(d - 1)
                if m.units.is_time_reference() or m2.units.is_time_reference():
                    return t, m
                op = "*" if kind == "mul" else "/"
                return OP(op, t, t2), N.binop(op, m, m2)
            if kind == "neg":
                return OP("-", t), m.neg()
            if kind == "pow":
                if m.units.is_time_reference() or np.abs(m.val).max(initial=0) > 1e4:
                    return t, m
                e = draw(st.sampled_from([2, 3, 1, 2.0]))
                return OP("**", t, NUM(e)), N.power(m, e)
            if kind == "red":
                f = draw(st.sampled_from(["mean", "mean", "sum", "min", "max"]))
                if not m.dims or m.units.is_time_reference():
                    return t, m
                if functions and draw(st.integers(0, 3)) == 0:
                    # over a dimension that has got another name first
                    t, m = F("chdims", t, STR("q")), refeval.chdims(m, "q")
                    return F(f, t, STR("q")), refeval.call(f, [m, "q"], {})
                ds = draw(st.lists(st.sampled_from(m.dims), unique=True, min_size=1))
                return F(f, t, *[STR(x) for x in ds]), refeval.call(f, [m] + ds, {})
            f = draw(st.sampled_from(["limit", "up", "down", "rmunits", "chunits", "sqrt"]))
            if f == "limit":
                kw = draw(st.sampled_from([{"below": 0}, {"above": 1.0}, {"below": -1, "above": 2}]))
                if m.val.size == 0:
                    return t, m
                return (F("limit", t, **{k: NUM(v) for k, v in kw.items()}), refeval.limit(m, **kw))
            if f in ("up", "down"):
                return F(f, t), refeval.direction(m, f)
            if f == "rmunits":
                return F(f, t), m.like(m.val, units="1")
            if f == "chunits":
                if m.units.is_time_reference():
                    return t, m
                u = draw(st.sampled_from([x for fam in FAM.values() for x in fam]))
                return F(f, t, units=STR(u)), refeval.chunits(m, units=u)
            if draw(st.booleans()):
                return F("sqrt", OP("*", t, t)), refeval.sqrt(N.binop("*", m, m))
            return F("sqrt", F("rmunits", t)), refeval.sqrt(m.like(m.val, units="1"))
        except N.Refuse:
            return t, m

    t, m = node(draw(st.integers(0, depth)))
    with np.errstate(all="ignore"):
        if m.val.size and not np.all(np.abs(m.val[~m.mask]) < 1e12):
            return leaf()
    return t, m


@st.composite
def out_units(draw, m, refuse=True):
    """units attribute for a definition with the units of m; and whether it is inconvertible"""
    s = str(m.units)
    k = draw(st.integers(0, 19))
    if m.units.is_time_reference():
        return draw(st.sampled_from(TUNITS)), False
    if k == 0:
        return None, False
    if k == 1 and refuse:
        return draw(st.sampled_from(["mol", "kg K s"])), True
    if k < 4:
        return draw(st.sampled_from(["?", ""])), False
    cands = [s]
    for fam in FAM.values():
        for u in fam:
            if Unit(u).is_convertible(m.units) and not reciprocal(Unit(u), m.units):
                cands.append(u)
    cands += ["10 " + s, "0.001 " + s]
    u = draw(st.sampled_from(cands))
    try:
        if not Unit(u).is_convertible(m.units) or reciprocal(Unit(u), m.units):
            return None, False
    except ValueError:
        return None, False
    return u, False


def reciprocal(u, v):
    """udunits also converts m to m-1; that is no conversion of a quantity"""
    return not u.is_convertible(v) or (
        not u.is_time_reference()
        and not (u / v).is_dimensionless()
        and not u.is_unknown()
    )


# ------------------------------------------------------------------------ outputs
DEEP = False
ATTRS = [("long_name", "a name"), ("cell_methods", "time: mean"), ("comment", "nö comment"),
         ("number", 3), ("weight", 2.5), ("flags", [1, 2, 3])]


@st.composite
def outputs(draw, world, nvars=(1, 4), depth=2, refuse=False, functions=True, reduce=True,
            index=True, positive=True, shuffle=True, directions=False, bounds=False,
            coordless=True, datavars=True, ints=True, aux=True, formats=("NETCDF4_CLASSIC",)):
    """adds the output side to a world"""
    dmap = world["dmap"]
    outvars = []
    taken = set(dmap.values())
    # data variables on a dimension of their own, and scalars
    if datavars and draw(st.integers(0, 2)) == 0:
        kind = draw(st.sampled_from(["scalar", "vector", "matrix", "clash"]))
        units = draw(st.sampled_from(["1", "m", "K"]))
        if kind == "scalar":
            outvars.append({"name": "d0", "dims": [], "datatype": "double",
                            "attrs": {"units": units}, "data": draw(st.sampled_from([2.0, -1.5])),
                            "file": None})
        elif kind == "matrix":
            n, k = draw(st.integers(1, 3)), draw(st.integers(1, 2))
            outvars.append({"name": "d0", "dims": ["k", "l"], "datatype": "double", "attrs": {"units": units},
                            "data": [[float(draw(st.integers(-3, 3))) for _ in range(k)] for _ in range(n)], "file": None})
            world = dict(world, dmap=dict(dmap, k="k", l="l"))
        else:
            dn = "k"
            if kind == "clash":
                # the name of an input dimension that is called differently in the output
                free = [d for d in dmap if d not in taken]
                if free:
                    dn = draw(st.sampled_from(free))
            n = draw(st.integers(1, 3))
            outvars.append({"name": "d0", "dims": [dn], "datatype": "double",
                            "attrs": {"units": units},
                            "data": [float(draw(st.integers(-3, 3))) for _ in range(n)],
                            "file": None})
            world = dict(world, dmap=dict(dmap, **({dn: dn} if dn not in dmap else {})),
                         clash=dn if dn in dmap else None)
    world = dict(world, outvars=outvars)
    refexpr = world
    if world.get("clash"):
        # not referenced by definitions: there the name would be ambiguous
        refexpr = dict(world, outvars=[])
    dmap = world["dmap"]
    # coordinates of all dimensions (that make the mapping of dimensions known)
    skip = None
    if coordless and draw(st.integers(0, 5)) == 0:
        skip = draw(st.sampled_from([d for d, _, _ in world["dims"]]))
    for d, _, _ in world["dims"]:
        if d == "b" or d == skip:
            continue
        src = [v for v in world["invars"] if v["name"] == "c" + d][0]
        attrs = {"axis": {"t": "T", "z": "Z", "y": "Y", "x": "X"}[d]}
        m = in_model(src, world)
        if d == "t":
            attrs["units"] = draw(st.sampled_from(TUNITS + ["days since ?", "?"]))
            if draw(st.booleans()):
                attrs["calendar"] = src["cal"]
        else:
            attrs["units"] = src["units"] if draw(st.booleans()) else draw(
                st.sampled_from(["m", "cm"] if d == "z" else [src["units"], "degrees"]))
        if directions and src["data"] and len(src["data"]) > 1 and draw(st.booleans()):
            attrs["direction"] = draw(st.sampled_from(["increasing", "decreasing"]))
        t = V(src["name"])
        if d != "t" and draw(st.integers(0, 5)) == 0:
            t = OP("*", NUM(2), t)
        o = {"name": dmap[d], "dims": [dmap[d]], "datatype": "double", "attrs": attrs,
             "tree": t, "file": None}
        outvars.append(o)
    nown = draw(st.integers(*nvars))
    naux = draw(st.sampled_from([0, 0, 1, 2])) if aux else 0
    for j in range(nown + naux):
        t, m = draw(expressions(refexpr, depth, functions, reduce, index))
        od = [dmap[d] for d in m.dims]
        if shuffle and draw(st.booleans()):
            od = list(draw(st.permutations(od)))
        # keep the mapping of dimensions without coordinates unambiguous
        unknown = [d for d in m.dims if d in ("b", "k", "l", skip)]
        if len(unknown) > 1:
            od = [dmap[d] for d in m.dims]
        u, bad = draw(out_units(m, refuse))
        attrs = {}
        if u is not None:
            attrs["units"] = u
        if positive and m.pos is not None and draw(st.integers(0, 3)):
            attrs["positive"] = draw(st.sampled_from(["up", "down"]))
        elif positive and draw(st.integers(0, 7)) == 0:
            attrs["positive"] = draw(st.sampled_from(["up", "down"]))
        if draw(st.booleans()):
            attrs["_FillValue"] = 1e20
        dt = draw(st.sampled_from(["double", "double", "float"]))
        if ints and "v" in t and env_of(world)[t["v"]].val.size and is_int(world, t["v"]) and u in (None, str(m.units)) and draw(st.booleans()):
            dt = "int"
            if "_FillValue" in attrs:
                attrs["_FillValue"] = -999
        fmt = draw(st.sampled_from(formats))
        o = {"name": "o%d" % j, "dims": od, "datatype": dt, "attrs": attrs, "tree": t,
             "file": {"filename": "f%d.nc" % j, "format": fmt}}
        if j >= nown:
            # only in the files that ask for it, or have all its dimensions
            o["name"] = draw(st.sampled_from(["a%d", "a%d", "_a%d"])) % j
            o["file"] = None
        outvars.append(o)
    for o in outvars:
        if o["file"] and naux:
            others = [x["name"] for x in outvars if x is not o]
            mv = draw(st.lists(st.sampled_from(others), unique=True, max_size=2))
            if mv:
                o["file"]["metavars"] = mv
        if naux and draw(st.integers(0, 4)) == 0:
            pub = [x["name"] for x in outvars if x is not o]
            for k in draw(st.sampled_from([["coordinates"], ["bounds"], ["coordinates", "bounds"]])):
                sep = draw(st.sampled_from([" ", " ", "  "]))
                o["attrs"][k] = sep.join(draw(st.lists(st.sampled_from(pub), unique=True, min_size=1,
                                                       max_size=4 if k == "coordinates" else 1)))
    unl = [dmap[d] for d, _, u in world["dims"] if u]
    if any(d in o["dims"][1:] for d in unl for o in outvars):
        for o in outvars:
            if o["file"] and "NETCDF3" in o["file"]["format"]:
                o["file"]["format"] = "NETCDF4_CLASSIC"
    # data variables only exist in the files that name them (or share their dimensions)
    if outvars[0]["name"] == "d0":
        own = [o for o in outvars if o["file"]]
        for o in own:
            mv = o["file"].setdefault("metavars", [])
            if "d0" not in mv and (o is own[0] or draw(st.booleans())):
                mv.append("d0")
    # dimensions without a coordinate in any file are told apart by their order only
    there = {n for o in outvars if o["file"] for n in file_vars(dict(world, outvars=outvars), o["name"], True)}
    known = {o["dims"][0] for o in outvars if len(o["dims"]) == 1 and o["name"] in there and "tree" in o}
    for o in outvars:
        if "tree" in o and len([x for x in o["dims"] if x not in known]) > 1:
            o["dims"] = [dmap[d] for d in refeval.evaluate(o["tree"], env_of(world)).dims]
    if draw(st.integers(0, 2)) == 0:
        outvars[:] = draw(st.permutations(outvars))
    world["exec"] = {"chunks": [], "history": False, "deflate": None}
    world["extra"] = draw(st.lists(st.sampled_from([0, 0, 1]), min_size=1, max_size=5))
    return world


def is_int(world, name):
    return any(v["name"] == name and v["dtype"][0] in "iu" for v in world["invars"])


@st.composite
def worlds(draw, inp=None, out=None):
    inp, out = dict(inp or {}), dict(out or {})
    if DEEP:
        # (the thorough tier has larger worlds, too)
        inp["maxsize"] = inp.get("maxsize", 4) + 3
        a, b = inp.get("nvars", (1, 5))
        inp["nvars"] = (a, b + 2)
        out["depth"] = out.get("depth", 2) + 1
        a, b = out.get("nvars", (1, 4))
        out["nvars"] = (a, b + 2)
    w = draw(inputs(**inp))
    return draw(outputs(w, **out))


# ------------------------------------------------------------------------- execution
@contextlib.contextmanager
def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="pbt", dir=base)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


NCT = {"i1": "i1", "u1": "u1", "f8": "f8", "f4": "f4", "i4": "i4", "i2": "i2", "i8": "i8", "u2": "u2", "u4": "u4", "S1": "S1"}


FILLS = {"i1": -128, "u1": 254, "i2": -9999, "i4": -9999, "i8": -9999}


def write_input(nc, v, shp, fmt):
    """an input variable in an open file"""
    from netCDF4 import default_fillvals

    store = v.get("store")
    typ = NCT[v["dtype"]]
    data = np.array(v["data"], dtype=v["dtype"]).reshape(shp)
    masked = v["mask"] is not None and any(v["mask"])
    if masked:
        data = np.ma.array(data, mask=np.array(v["mask"], bool).reshape(shp))
    attrs = {}
    scale, offset = 0.25, 10.0
    if store in ("packed", "packed single"):
        raw = (np.ma.getdata(data).astype(float) - offset) / scale
        if v["dtype"][0] == "f" and raw.size and np.array_equal(raw, np.rint(raw)) and np.abs(raw).max() < 30000:
            f = np.float64 if store == "packed" else np.float32
            attrs.update({"scale_factor": f(scale), "add_offset": f(offset)})
            data = np.ma.array(raw.astype("i2"), mask=np.ma.getmaskarray(data)) if masked else raw.astype("i2")
            typ = "i2"
    fill, kw = None, {}
    if masked:
        fill = FILLS.get(typ, 1e20)
        if store == "missing_value":
            attrs["missing_value"] = np.array(fill, typ)
            data, fill = data.filled(fill), None
            masked = False
        elif store == "default fill" and typ not in ("i1", "u1"):
            fill = None
    if fmt.startswith("NETCDF4") and shp:
        if store == "big endian" and typ not in ("i1", "u1", "S1"):
            kw["endian"] = "big"
        elif store == "compressed":
            kw.update(zlib=True, shuffle=True, fletcher32=True)
        elif store == "big chunks" and all(shp):
            kw["chunksizes"] = shp
    x = nc.createVariable(v["name"], typ, tuple(v["dims"]), fill_value=fill, **kw)
    for a, b in attrs.items():
        x.setncattr(a, b)
    if v["units"] is not None:
        x.setncattr("units", v["units"])
    if v["cal"]:
        x.setncattr("calendar", v["cal"])
    if v["pos"]:
        x.setncattr("positive", v.get("posattr") or v["pos"])
    for a, b in (v.get("attrs") or {}).items():
        x.setncattr(a, b)
    x.set_auto_maskandscale(False)
    if masked:
        data = np.ma.filled(data, default_fillvals[typ] if fill is None else fill)
    x[...] = data


def write_inputs(world, root):
    """the input files; returns their names"""
    from netCDF4 import Dataset

    names = []
    dims = {d: (n, u) for d, n, u in world["dims"]}
    for k in range(world["nfiles"]):
        fn = os.path.join(root, "in%d.nc" % k)
        vs = [v for v in world["invars"] if k in v["files"]]
        fmt = world.get("informat", "NETCDF4_CLASSIC")
        if any(v["dtype"] in ("i8", "u1", "u2", "u4") for v in vs):
            fmt = "NETCDF4"
        with Dataset(fn, "w", format=fmt) as nc:
            need = []
            for v in vs:
                need += [d for d in v["dims"] if d not in need]
            for d in need:
                nc.createDimension(d, None if dims[d][1] else dims[d][0])
            for v in vs:
                write_input(nc, v, [dims[d][0] for d in v["dims"]], fmt)
            if world.get("gattrs"):
                nc.setncatts(world["gattrs"])
        names.append(fn)
    return names


def dsdict(world, root):
    """the output specification (root: where the output files go)"""
    d = OrderedDict()
    for o in world["outvars"]:
        v = OrderedDict()
        v["attributes"] = OrderedDict(o["attrs"])
        v["datatype"] = o["datatype"]
        v["dimensions"] = list(o["dims"])
        v["definition"] = o["data"] if "data" in o else (
            o["text"] if "text" in o else render(o["tree"], world.get("extra", (0,))))
        if o["file"]:
            f = OrderedDict(o["file"])
            f["filename"] = os.path.join(root, f["filename"])
            v["file"] = f
        for k in o.get("omit", ()):
            v.pop(k, None)
        d[o["name"]] = v
    return d


def make_flow(world, root, dsd=None, out=None):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    inp = InputDatasetDesc("inp", filenames=[os.path.join(root, "in%d.nc" % k) for k in range(world["nfiles"])])
    out = OutputDatasetDesc("out", dsdict=dsdict(world, out or root) if dsd is None else dsd)
    return DataFlow(inp, out)


def execute(world, root, flow=None, out=None, **kw):
    """build (unless given) and execute the flow; returns the warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if flow is None:
            flow = make_flow(world, root, out=out)
        ex = world.get("exec") or {}
        args = dict(chunks=OrderedDict((d, n) for d, n in ex.get("chunks", [])), serial=True,
                    history=bool(ex.get("history")))
        if ex.get("deflate") is not None:
            args["deflate"] = ex["deflate"]
        args.update(kw)
        flow.execute(**args)
    return w


# ------------------------------------------------------------------------- expectation
def target_units(o, m):
    """the units an output variable has to be written in (None: as they are)"""
    attr = o["attrs"].get("units", None)
    if attr is None and "units" not in o["attrs"]:
        return None
    attr = str(attr)
    if m.units.is_time_reference():
        parts = attr.split("since")
        u = parts[0].strip()
        r = parts[1].strip() if len(parts) > 1 else ""
        mu, mr = refeval.split_ref(m.units)
        u = mu if u in ("", "?", "unknown") else u
        r = mr if r in ("", "?", "unknown") else r
        cal = o["attrs"].get("calendar") or m.units.calendar
        return Unit("{} since {}".format(u, r), calendar=cal)
    u = attr.split("since")[0].strip()
    if u in ("", "?", "unknown"):
        return m.units
    return Unit(attr, calendar=o["attrs"].get("calendar"))


def expected(world, o, env=None):
    """NA (in output dimensions, output units) that has to be written for an output variable"""
    env = env_of(world) if env is None else env
    if "data" in o:
        m = data_model(o)
        dmap = {d: d for d in m.dims}
    else:
        m = refeval.evaluate(o["tree"], env)
        dmap = dict(world["dmap"])
        if world.get("clash"):
            pass
    u = target_units(o, m)
    before = m
    if u is not None:
        if m.units.is_time_reference() and u.calendar != m.units.calendar:
            raise N.Refuse("calendar")
        m = m.convert(u)
    m = NA_rename(m, [dmap.get(d, d) for d in m.dims])
    m = m.transpose(o["dims"])
    pos = str(o["attrs"].get("positive")).lower()
    if pos in ("up", "down") and m.pos is not None and m.pos != pos:
        m = m.neg()
    # rounding is relative to the intermediate results (and to the offsets of temperatures)
    big = max(300.0, float(np.abs(before.val).max(initial=0)))
    if "tree" in o:
        for sub in subtrees(o["tree"]):
            try:
                x = refeval.evaluate(sub, env)
            except (N.Refuse, KeyError):
                continue
            if isinstance(x, N.NA):
                big = max(big, float(np.abs(x.val).max(initial=0)))
                if x.units != before.units and x.units.is_convertible(before.units):
                    big = max(big, float(np.abs(x.convert(before.units).val).max(initial=0)))
    factor = 1.0
    if u is not None and not u.is_time_reference():
        factor = abs(before.units.convert(1.0, u) - before.units.convert(0.0, u))
    scale = max(1.0, big * factor, float(np.abs(m.val).max(initial=0)))
    return m, scale


def subtrees(t):
    yield t
    for x in t.get("a", []) if isinstance(t, dict) else []:
        for y in subtrees(x):
            yield y


def NA_rename(m, dims):
    return N.NA(dims, m.val, m.mask, m.units, m.pos)


def offset_scale(o, m):
    return 1000.0


def compare_var(o, m, scale, got, what):
    """got: masked array read from the file"""
    want_shape = m.val.shape
    check(tuple(got.shape) == want_shape, "{}: shape {} instead of {}", what, got.shape, want_shape)
    gm = np.ma.getmaskarray(got)
    single = o["datatype"] in ("float", "real") or o.get("f4")
    rtol, atol = (4e-6, 4e-6 * max(scale, 300.0)) if single else (1e-9, 1e-10 * max(scale, 300.0))
    want = m.val
    if o["datatype"] == "int":
        rtol, atol = 0, 0.5
    wrong = gm != m.mask
    if o["attrs"].get("_FillValue") is not None:
        # a value that is the fill value can not be told from a missing one
        with np.errstate(all="ignore"):
            wrong &= ~(np.abs(want - o["attrs"]["_FillValue"]) <= atol + rtol * np.abs(want))
    check(not wrong.any(), "{}: missing values {} instead of {}", what, gm.tolist(), m.mask.tolist())
    gv = np.ma.getdata(got).astype(float)
    with np.errstate(all="ignore"):
        # == for infinite values
        ok = (np.abs(gv - want) <= atol + rtol * np.abs(want)) | gm | (gv == want)
    check(bool(ok.all()), "{}: values {} instead of {}", what, got.tolist(),
          np.ma.array(want, mask=gm).tolist())


def read_file(fn):
    """everything in a NetCDF file, as plain data"""
    from netCDF4 import Dataset

    check(os.path.exists(fn), "the file {} was not written", os.path.basename(fn))
    with Dataset(fn) as nc:
        nc.set_auto_mask(True)
        out = {"format": nc.data_model, "dims": {}, "attrs": {a: nc.getncattr(a) for a in nc.ncattrs()},
               "vars": {}}
        for d, x in nc.dimensions.items():
            out["dims"][d] = (len(x), x.isunlimited())
        for v, x in nc.variables.items():
            try:
                filt = x.filters()
            except Exception:
                filt = None
            out["vars"][v] = {"dims": x.dimensions, "dtype": x.dtype, "data": x[...],
                              "attrs": {a: x.getncattr(a) for a in x.ncattrs()}, "filters": filt}
    return out


def plain(x):
    return x.tolist() if isinstance(x, (np.ndarray, np.generic)) else x


def same_files(a, b, what, skip=("creation_date",)):
    """two read_file results are identical"""
    check(a["format"] == b["format"], "{}: format {} / {}", what, a["format"], b["format"])
    check(a["dims"] == b["dims"], "{}: dimensions {} / {}", what, a["dims"], b["dims"])
    ga = {k: plain(v) for k, v in a["attrs"].items() if k not in skip}
    gb = {k: plain(v) for k, v in b["attrs"].items() if k not in skip}
    check(ga == gb, "{}: attributes {} / {}", what, ga, gb)
    check(set(a["vars"]) == set(b["vars"]), "{}: variables {} / {}", what, sorted(a["vars"]), sorted(b["vars"]))
    for v in a["vars"]:
        x, y = a["vars"][v], b["vars"][v]
        w = "{}, variable {}".format(what, v)
        check(x["dims"] == y["dims"], "{}: dimensions {} / {}", w, x["dims"], y["dims"])
        check(x["dtype"] == y["dtype"], "{}: type {} / {}", w, x["dtype"], y["dtype"])
        xa = {k: plain(t) for k, t in x["attrs"].items()}
        ya = {k: plain(t) for k, t in y["attrs"].items()}
        check(repr(xa) == repr(ya), "{}: attributes {} / {}", w, xa, ya)
        check(x["filters"] == y["filters"], "{}: compression {} / {}", w, x["filters"], y["filters"])
        dx, dy = x["data"], y["data"]
        check(dx.shape == dy.shape, "{}: shape {} / {}", w, dx.shape, dy.shape)
        mx, my = np.ma.getmaskarray(dx), np.ma.getmaskarray(dy)
        check(np.array_equal(mx, my), "{}: missing values {} / {}", w, dx.tolist(), dy.tolist())
        vx, vy = np.ma.getdata(dx), np.ma.getdata(dy)
        if dx.dtype.kind in "SU":
            same = ((vx == vy) | mx).all()
        else:
            with np.errstate(all="ignore"):
                same = ((vx == vy) | mx | (np.abs(vx - vy) <= 1e-6 * np.abs(vy) * (vx.dtype.itemsize <= 4)
                                          + 1e-12 * np.abs(vy)) | ((vx != vx) & (vy != vy))).all()
        check(bool(same), "{}: values {} / {}", w, dx.tolist(), dy.tolist())


def strictly(v):
    """direction of a sequence of values"""
    d = np.diff(v)
    if (d > 0).all():
        return "increasing"
    if (d < 0).all():
        return "decreasing"
    return None


def inverted_dims(world, names, env):
    """dimensions that have to be reversed in a file with the given variables"""
    out = set()
    byname = {o["name"]: o for o in world["outvars"]}
    for n in names:
        o = byname[n]
        if len(o["dims"]) == 1 and "axis" in o["attrs"] and "direction" in o["attrs"]:
            m, _ = expected(world, o, env)
            if strictly(m.val) != o["attrs"]["direction"]:
                out.add(o["dims"][0])
    return out


def file_vars(world, name, hidden=False):
    """names of the variables that have to be in the file of variable `name`"""
    byname = {o["name"]: o for o in world["outvars"]}
    own = byname[name]
    base = [name] + [m for m in own["file"].get("metavars", [])]
    dims = {d for n in base for d in byname[n]["dims"]}
    out = list(dict.fromkeys(base))
    for o in world["outvars"]:
        if not o["file"] and o["name"] not in out and o["dims"] and set(o["dims"]) <= dims:
            out.append(o["name"])
    refs = []
    for n in out:
        a = byname[n]["attrs"]
        refs += a.get("bounds", "").split() + a.get("coordinates", "").split()
    for n in refs:
        if n not in out:
            out.append(n)
    return [n for n in out if hidden or not n.startswith("_")]


def verify_files(w, root, stt, env=None, only=None):
    """all output files of a world against the reference evaluation"""
    env = env_of(w) if env is None else env
    byname = {o["name"]: o for o in w["outvars"]}
    for name, fn in own_files(w).items():
        if only is not None and name not in only:
            continue
        path = os.path.join(root, fn)
        check(os.path.exists(path), "output file {} of {} was not written", fn, name)
        f = read_file(path)
        check(name in f["vars"], "variable {} is not in its file {}", name, fn)
        want = file_vars(w, name)
        check(set(f["vars"]) == set(want), "{} holds variables {} instead of {}", fn,
              sorted(f["vars"]), sorted(want))
        inv = inverted_dims(w, f["vars"], env)
        if inv:
            stt.event("reversed")
        for v, x in f["vars"].items():
            o = byname[v]
            what = "{} = {!r} in {}".format(v, render(o["tree"]) if "tree" in o else o["data"], fn)
            check(tuple(x["dims"]) == tuple(o["dims"]), "{}: dimensions {} instead of {}", what,
                  x["dims"], o["dims"])
            m, scale = expected(w, o, env)
            if inv.intersection(m.dims):
                idx = tuple(slice(None, None, -1 if d in inv else 1) for d in m.dims)
                m = m.like(m.val[idx], m.mask[idx])
            if "tree" in o:
                raw = refeval.evaluate(o["tree"], env)
                if raw.units != m.units:
                    stt.event("converted")
                if len(o["dims"]) > 1 and [w["dmap"].get(d, d) for d in raw.dims] != list(o["dims"]):
                    stt.event("transposed")
            if m.mask.any():
                stt.event("missing values")
            check(x["dtype"] == np.dtype(NPTYPE[o["datatype"]]), "{}: type {}", what, x["dtype"])
            compare_var(o, m, scale, x["data"], what)


def own_files(world):
    return {o["name"]: o["file"]["filename"] for o in world["outvars"] if o["file"]}
