"""
Reference model of arrays with named dimensions, units and a positive direction.

Independent of PyConform: a plain ndarray of float64 values, a boolean mask, a tuple of
dimension names; every operation is written as the textbook definition over coordinates.
Unit algebra and conversion factors are those of cf_units (trusted).
"""
import numpy as np
from cf_units import Unit
from hypothesis import strategies as st

from pbt.core import Violation


class Refuse(Exception):
    """the model says that the operation has to be refused"""


class NA(object):
    def __init__(self, dims, val, mask=None, units="1", pos=None):
        self.dims = tuple(dims)
        self.val = np.array(val, dtype=float)
        self.mask = (
            np.zeros(self.val.shape, bool) if mask is None else np.array(mask, dtype=bool)
        )
        self.units = units if isinstance(units, Unit) else Unit(units)
        self.pos = pos
        assert len(self.dims) == self.val.ndim, (self.dims, self.val.shape)

    @property
    def sizes(self):
        return dict(zip(self.dims, self.val.shape))

    def like(self, val, mask=None, dims=None, units=None, pos="same"):
        return NA(
            self.dims if dims is None else dims,
            val,
            self.mask if mask is None else mask,
            self.units if units is None else units,
            self.pos if pos == "same" else pos,
        )

    def expand(self, dims, sizes):
        """values and mask on the given dimensions (which contain self.dims)"""
        order = [d for d in dims if d in self.dims]
        v = self.val.transpose([self.dims.index(d) for d in order])
        m = self.mask.transpose([self.dims.index(d) for d in order])
        shp = [sizes[d] if d in self.dims else 1 for d in dims]
        full = [sizes[d] for d in dims]
        return (
            np.broadcast_to(v.reshape(shp), full).copy(),
            np.broadcast_to(m.reshape(shp), full).copy(),
        )

    def transpose(self, dims):
        dims = tuple(dims)
        if sorted(map(str, dims)) != sorted(map(str, self.dims)):
            raise Refuse("transpose")
        ax = [self.dims.index(d) for d in dims]
        return NA(dims, self.val.transpose(ax), self.mask.transpose(ax), self.units, self.pos)

    def convert(self, units):
        u = units if isinstance(units, Unit) else Unit(units)
        if self.units == u:
            return self
        if not self.units.is_convertible(u):
            raise Refuse("units")
        val = self.val.copy()
        ok = ~self.mask
        if ok.any():
            val[ok] = np.asarray(self.units.convert(val[ok], u), float)
        return self.like(val, units=u)

    def neg(self):
        return self.like(-self.val)


def broadcast(a, b):
    dims = a.dims + tuple(d for d in b.dims if d not in a.dims)
    sizes = dict(b.sizes)
    for d, n in a.sizes.items():
        if d in sizes and sizes[d] != n:
            raise Refuse("sizes")
        sizes[d] = n
    av, am = a.expand(dims, sizes)
    bv, bm = b.expand(dims, sizes)
    return dims, av, am, bv, bm


def match_positive(a, b):
    """the sign with which b enters, and the direction of the result"""
    if a.pos is not None and b.pos is not None and a.pos != b.pos:
        return -1.0, a.pos
    return 1.0, a.pos if a.pos is not None else b.pos


def binop(op, a, b):
    if op in "+-":
        b = b.convert(a.units)
    sgn, pos = match_positive(a, b)
    dims, av, am, bv, bm = broadcast(a, b)
    bv = sgn * bv
    mask = am | bm
    with np.errstate(all="ignore"):
        if op == "+":
            return NA(dims, av + bv, mask, a.units, pos)
        if op == "-":
            return NA(dims, av - bv, mask, a.units, pos)
        try:
            if op == "*":
                return NA(dims, av * bv, mask, a.units * b.units, pos)
            bad = np.abs(bv) == 0.0
            safe = np.where(bad, 1.0, bv)
            if op == "/":
                return NA(dims, av / safe, mask | bad, a.units / b.units, pos)
            if op == "//":
                return NA(dims, av // safe, mask | bad, a.units / b.units, pos)
        except ValueError:
            raise Refuse("unit algebra")
    raise KeyError(op)


def power(a, e):
    """e: a plain number"""
    try:
        units = a.units ** (int(e) if float(e).is_integer() else e)
    except ValueError:
        raise Refuse("unit algebra")
    with np.errstate(all="ignore"):
        v = np.power(a.val, float(e))
    bad = ~np.isfinite(v)
    pos = None if float(e) % 2 == 0 else a.pos
    return NA(a.dims, np.where(bad, 0.0, v), a.mask | bad, units, pos)


def reduce_(a, kind, dims):
    """mean / sum / min / max over the named dimensions, masked entries left out"""
    keep = tuple(d for d in a.dims if d not in dims)
    t = a.transpose(keep + tuple(d for d in a.dims if d in dims))
    shp = t.val.shape[: len(keep)]
    v = t.val.reshape(shp + (-1,))
    m = t.mask.reshape(shp + (-1,))
    out = np.zeros(shp)
    om = np.zeros(shp, bool)
    for k in np.ndindex(*shp):
        good = v[k][~m[k]]
        if good.size == 0:
            om[k] = True
        else:
            out[k] = {"mean": np.mean, "sum": np.sum, "min": np.min, "max": np.max}[kind](good)
    return NA(keep, out, om, a.units, a.pos)


def describe(x):
    return "dims={} units={} positive={} values={}".format(
        x.dims, x.units, x.pos, np.ma.array(x.val, mask=x.mask).tolist()
    )


def from_phys(p):
    """model view of a PhysArray"""
    data = np.array(np.ma.getdata(p), dtype=float)
    return NA(p.dimensions, data, np.ma.getmaskarray(p), p.units, p.positive)


def same_units(u, v):
    """equal up to rounding of the unit's factor"""
    u, v = Unit(u) if not isinstance(u, Unit) else u, Unit(v) if not isinstance(v, Unit) else v
    if u == v:
        return True
    if u.is_time_reference() or v.is_time_reference() or not u.is_convertible(v):
        return False
    one, zero = u.convert(1.0, v), u.convert(0.0, v)
    return abs(one - 1) < 1e-9 and abs(zero) < 1e-9


def differs(got, want, rtol=1e-9, atol=1e-9, units=True, pos=True):
    """None when the PhysArray `got` is what the model says, else a message"""
    if not all(hasattr(got, a) for a in ("dimensions", "units", "positive", "name")):
        return "a bare {} ({!r}) without units and dimensions".format(type(got).__name__, got)
    if tuple(got.dimensions) != tuple(want.dims):
        return "dimensions {} instead of {}".format(got.dimensions, want.dims)
    if tuple(np.shape(got)) != want.val.shape:
        return "shape {} instead of {}".format(np.shape(got), want.val.shape)
    if units and not same_units(got.units, want.units):
        return "units {!r} instead of {!r}".format(got.units, want.units)
    if pos and got.positive != want.pos:
        return "positive {!r} instead of {!r}".format(got.positive, want.pos)
    gm = np.ma.getmaskarray(got)
    if not np.array_equal(gm, want.mask):
        return "mask {} instead of {}".format(gm.tolist(), want.mask.tolist())
    gv = np.array(np.ma.getdata(got), dtype=float)
    with np.errstate(all="ignore"):
        ok = (np.abs(gv - want.val) <= atol + rtol * np.abs(want.val)) | gm | (gv == want.val)
    if not ok.all():
        return "values {} instead of {}".format(
            np.ma.array(gv, mask=gm).tolist(), np.ma.array(want.val, mask=gm).tolist()
        )
    return None


# -- generation ----------------------------------------------------------------------------
FAMILIES = [
    ["m", "cm", "km", "ft"],
    ["K", "degC", "degF"],
    ["W m-2", "kW m-2", "J s-1 cm-2"],
    ["kg m-2 s-1", "mm day-1 kg m-2 mm-1", "g cm-2 s-1"],
    ["1", "%", "1e-3"],
    ["Pa", "hPa", "mbar"],
    ["m2", "cm2", "km2"],
    ["s", "days", "hours"],
]
ALLUNITS = [u for f in FAMILIES for u in f]


def spread(base, n):
    """a few values put in the places of many, without a period"""
    return [base[(i * 2654435761 >> 9) % len(base)] for i in range(n)]


@st.composite
def values(draw, n, dtype="f8", big=False):
    if dtype == "i1":
        el = st.sampled_from([-120, -100, -3, -1, 0, 1, 2, 3, 100, 127])
    elif dtype == "u1":
        el = st.sampled_from([0, 0, 1, 2, 3, 100, 253])
    elif dtype == "i2":
        el = st.one_of(st.integers(-6, 6), st.sampled_from([-200, 200]))
    elif dtype.startswith("i"):
        el = st.integers(-6, 6)
    else:
        el = st.one_of(
            st.integers(-8, 8).map(lambda k: k / 4.0),
            st.integers(-8, 8).map(lambda k: k / 4.0),
            st.sampled_from([0.0, 1.0, 100.0, -273.15, 1e6, 0.1]),
        )
    if n > 40:
        return spread([draw(el) for _ in range(16)], n)
    return [draw(el) for _ in range(n)]


@st.composite
def phys(draw, sizes, dims=None, units=None, dtypes=("f8", "f8", "f8", "i8", "f4"), maxdims=3,
         positive=True, masks=True):
    if dims is None:
        dims = draw(st.lists(st.sampled_from(sorted(sizes)), unique=True, max_size=maxdims))
    shape = [sizes[d] for d in dims]
    n = int(np.prod(shape)) if shape else 1
    dtype = draw(st.sampled_from(dtypes))
    mask = None
    if masks and draw(st.integers(0, 2)) == 0:
        k = n if n <= 40 else 17
        mask = draw(st.lists(st.sampled_from([0, 0, 1]), min_size=k, max_size=k))
        mask = spread(mask, n) if n > k else mask
    return {
        "dims": list(dims),
        "shape": shape,
        "data": draw(values(n, dtype)),
        "mask": mask,
        "dtype": dtype,
        "units": draw(st.sampled_from(units or ALLUNITS)),
        "pos": draw(st.sampled_from([None, None, "up", "down"])) if positive else None,
        # memory layout: the array may be a transposed view of its base
        "layout": draw(st.sampled_from(["C", "C", "T"])),
    }


def build(spec, name="a"):
    """the PhysArray of a spec"""
    from pyconform.physarray import PhysArray

    data = np.array(spec["data"], dtype=spec["dtype"]).reshape(spec["shape"])
    if spec["mask"] is not None:
        data = np.ma.array(data, mask=np.array(spec["mask"], bool).reshape(spec["shape"]))
    if spec["layout"] == "T" and data.ndim > 1:
        data = data.transpose().copy().transpose()
    kw = {} if spec["pos"] is None else {"positive": spec["pos"]}
    return PhysArray(
        data, name=name, units=spec["units"], dimensions=tuple(spec["dims"]), **kw
    )


def model(spec):
    data = np.array(spec["data"], dtype=spec["dtype"]).reshape(spec["shape"])
    mask = None
    if spec["mask"] is not None:
        mask = np.array(spec["mask"], bool).reshape(spec["shape"])
    return NA(spec["dims"], data, mask, spec["units"], spec["pos"])


def snapshot(p):
    """everything a caller can see of a PhysArray"""
    if not all(hasattr(p, a) for a in ("dimensions", "units", "positive", "name")):
        raise Violation("a bare {} ({!r}) without units and dimensions".format(type(p).__name__, p))
    return (
        repr(np.array(np.ma.getdata(p)).tolist()),
        np.ma.getmaskarray(p).tolist(),
        str(np.asarray(p).dtype),
        tuple(np.shape(p)),
        tuple(p.dimensions),
        str(p.units),
        p.units.calendar,
        p.positive,
        p.name,
    )
