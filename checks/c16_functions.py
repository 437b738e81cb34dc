"""C16: the built-in functions do what their definition says"""
import numpy as np
from cf_units import Unit
from hypothesis import strategies as st

from pbt import named as N
from pbt import refeval
from pbt.core import Prop, Sub, check
from pbt.gen import lengthen

TIMES = ["days since 1850-01-01", "hours since 1990-07-01 06:00:00", "days since 2005-02-03"]
CALS = ["standard", "noleap", "360_day"]
REFS = ["2000-01-01", "1850-01-01 12:00:00"]
UNITS = N.ALLUNITS + ["m2 s-2", "K2", "m4"]
NAMES = ["sqrt", "mean", "sum", "min", "max", "up", "down", "chunits", "limit", "rmunits", "chdims"]


@st.composite
def cases(draw):
    sizes = lengthen(draw, {d: draw(st.integers(1, 4)) for d in "wxyz"})
    name = draw(st.sampled_from(NAMES))
    c = {"name": name, "args": [], "kw": {}}
    if draw(st.integers(0, 9)) == 0:
        c["data"] = draw(st.sampled_from([4.0, 0.25, 3, 0, -2, -1.5, 1e6]))
    else:
        p = draw(N.phys(sizes, units=UNITS, dtypes=("f8", "f8", "i8", "f4", "i4"), maxdims=4))
        if draw(st.integers(0, 1 if name == "chunits" else 4)) == 0:
            p["units"] = draw(st.sampled_from(TIMES))
            p["cal"] = draw(st.sampled_from(CALS))
        if name == "sqrt" and draw(st.booleans()):
            p["data"] = [abs(x) for x in p["data"]]
            p["units"] = draw(st.sampled_from(["1", "m2", "m4", "m2 s-2", "K2", "m"]))
            p.pop("cal", None)
        c["data"] = p
    dims = c["data"]["dims"] if isinstance(c["data"], dict) else []
    if name in ("mean", "sum", "min", "max"):
        c["args"] = draw(st.lists(st.sampled_from((dims or ["x"]) + ["nosuch"]), unique=True))
    elif name == "chdims":
        pool = ["p", "q", "r", "s"] + list(dims)
        c["args"] = list(draw(st.permutations(pool)))[:draw(st.integers(0, len(dims) + 1))]
        # (more names than dimensions are ignored; names have to stay distinct)
        new = c["args"] + list(dims[len(c["args"]):])
        if len(set(new)) < len(new):
            c["args"] = ["p", "q", "r", "s"][: len(c["args"])]
    elif name == "limit":
        lims = [0, 0.0, 1, -1, 0.5, 2.0, -2.25, 100, 1e6, 1e-3]
        a, b = draw(st.sampled_from(lims)), draw(st.sampled_from(lims))
        k = draw(st.integers(0, 6))
        c["kw"] = ({"below": min(a, b), "above": max(a, b)} if k < 3 else {"below": a} if k < 5 else
                   {"above": a} if k < 6 else {})
    elif name == "chunits":
        if draw(st.integers(0, 5)):
            c["kw"]["units"] = draw(st.sampled_from(UNITS + TIMES))
        t = isinstance(c["data"], dict) and "cal" in c["data"]
        if t and draw(st.booleans()):
            c["kw"]["units"] = draw(st.sampled_from(TIMES))
        if draw(st.integers(0, 2)) == 0 and (t or "since" in c["kw"].get("units", "")):
            if draw(st.booleans()):
                c["kw"]["refdate"] = draw(st.sampled_from(REFS))
            if draw(st.booleans()):
                c["kw"]["calendar"] = draw(st.sampled_from(CALS))
        if t and "units" in c["kw"] and "since" not in c["kw"]["units"]:
            # another unit of time, with the same reference date
            c["kw"]["units"] = draw(st.sampled_from(["days", "hours", "seconds", "minutes"]))
        c["positional"] = draw(st.booleans())
    elif name in ("up", "down") and draw(st.booleans()) and isinstance(c["data"], dict):
        c["data"]["pos"] = draw(st.sampled_from(["up", "down"]))
    c["part"] = [draw(st.sampled_from([None, [0, 1], [1, None], [None, None, -1]])) for _ in dims]
    return c


def run(c, stt):
    from pyconform import functions
    from pyconform.physarray import PhysArray

    name = c["name"]
    func = functions.find(name)
    if isinstance(c["data"], dict):
        arr = N.build(c["data"])
        m = N.model(c["data"])
        if "cal" in c["data"]:
            u = Unit(c["data"]["units"], calendar=c["data"]["cal"])
            arr.units = u
            m = m.like(m.val, units=u)
    else:
        arr = c["data"]
        m = N.NA((), c["data"])
    args, kw = list(c["args"]), dict(c["kw"])
    if name == "chunits" and c.get("positional"):
        keys = ["units", "refdate", "calendar"]
        last = max([keys.index(k) for k in kw] or [-1])
        args = [kw.pop(k, None) for k in keys[: last + 1]]
    what = "{}({}, {}, {})".format(name, N.describe(m) if isinstance(arr, PhysArray) else arr, args, kw)
    stt.event(name)
    # what it has to be
    try:
        if name in ("mean", "sum", "min", "max") and not isinstance(arr, PhysArray):
            raise N.Refuse("constant")
        want = refeval.call(name, [m] + c["args"], c["kw"])
    except (N.Refuse, ValueError) as r:
        stt.nt()
        stt.event(name + " refused")
        try:
            func(arr, *args, **kw)[...]
        except Exception:
            return
        check(False, "{} is not refused ({})", what, r)
    before = N.snapshot(arr) if isinstance(arr, PhysArray) else None
    f = func(arr, *args, **kw)
    got = f[...]
    if not isinstance(arr, PhysArray):
        # a number in, a number (or an array without dimensions) out
        if not isinstance(got, PhysArray):
            got = PhysArray(got, dimensions=())
    tol = 1e-6 if isinstance(c["data"], dict) and c["data"]["dtype"] == "f4" else 1e-9
    d = N.differs(got, want, rtol=tol)
    check(d is None, "{}: {}", what, d)
    if before is not None:
        check(N.snapshot(arr) == before, "{} changed its argument", what)
        d = N.differs(f[...], want, rtol=tol)
        check(d is None, "{} when evaluated again: {}", what, d)
        # writing to the result does not reach the argument (where it holds data of its own)
        if name in ("mean", "sum", "min", "max"):
            check(set(f.sumlike_dimensions) == set(c["args"]), "{}: sum-like dimensions {}", what,
                  f.sumlike_dimensions)
    if name == "chdims" and not isinstance(arr, PhysArray):
        return
    # a part, by the names of the dimensions of the result
    red = c["args"] if name in ("mean", "sum", "min", "max") else []
    if isinstance(arr, PhysArray) and want.dims:
        idx = {}
        for x, p in zip(want.dims, c["part"]):
            if p is not None and x not in red:
                idx[x] = slice(*p)
        sel = tuple(idx.get(x, slice(None)) for x in want.dims)
        if all(np.zeros(want.val.shape)[sel].shape):
            part = want.like(want.val[sel], want.mask[sel])
            d = N.differs(f[idx], part, rtol=tol)
            check(d is None, "part {} of {}: {}", idx, what, d)
    # what is known before there are data
    if isinstance(arr, PhysArray):
        info = f[None]
        check(tuple(info.dimensions) == tuple(want.dims), "info of {}: dimensions {} instead of {}",
              what, info.dimensions, want.dims)
        check(N.same_units(info.units, want.units) and info.units.calendar == want.units.calendar,
              "info of {}: units {} instead of {}", what, info.units, want.units)
        check(got.units.calendar == want.units.calendar, "{}: calendar {} instead of {}", what,
              got.units.calendar, want.units.calendar)
        check(info.positive == want.pos, "info of {}: positive {}", what, info.positive)
        if m.mask.any():
            stt.event("missing values")
        if m.val.size > 1 or name in ("up", "down", "chunits", "rmunits"):
            stt.nt()


PROP = Prop(
    "C16",
    [Sub("function", cases, run, quick=12000)],
    rule="each built-in function on arrays of 0-4 dimensions of size 1-4 (types, missing values, "
    "directions, 28 units, time references) or numbers, with all forms of arguments; compared with "
    "the reference model, also for parts, repeated evaluation and for no data; non-trivial: more than "
    "one element, or a refusal",
    assumptions=["cf_units' unit algebra"],
)
