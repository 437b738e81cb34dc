"""C24: the DynVarMIP diagnostics follow from their defining equations"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

EPS = 2.3e-16


class E(object):
    """A number with a bound of its rounding error; missing or indeterminate"""

    __slots__ = ("v", "e", "bad")

    def __init__(self, v, e=0.0, bad=None):
        self.v, self.e, self.bad = v, e, bad

    @staticmethod
    def of(x):
        return x if isinstance(x, E) else E(float(x))

    def _with(self, o):
        if self.bad or o.bad:
            return E(0.0, 0.0, "missing" if "missing" in (self.bad, o.bad) else "unknown")
        return None

    def __add__(self, o):
        o = E.of(o)
        return self._with(o) or E(self.v + o.v, self.e + o.e + EPS * abs(self.v + o.v))

    def __neg__(self):
        return E(-self.v, self.e, self.bad)

    def __sub__(self, o):
        return self + (-E.of(o))

    def __mul__(self, o):
        o = E.of(o)
        return self._with(o) or E(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e + EPS * abs(self.v * o.v))

    def __truediv__(self, o):
        o = E.of(o)
        b = self._with(o)
        if b:
            return b
        if abs(o.v) <= 1e4 * o.e or o.v == 0:
            return E(0.0, 0.0, "unknown")
        q = self.v / o.v
        return E(q, (self.e + abs(q) * o.e) / (abs(o.v) - o.e) + EPS * abs(q))

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return E.of(o) - self

    def __rtruediv__(self, o):
        return E.of(o) / self


def agree(want, got, masked, what):
    """compares one value; returns whether it was determined"""
    if want.bad == "unknown" or not math.isfinite(want.v) or not math.isfinite(want.e):
        return False
    if want.bad == "missing":
        check(masked, "{}: depends on missing values, but is {}", what, got)
        return True
    check(not masked, "{}: missing instead of {}", what, want.v)
    if abs(want.v) > 1e300 or want.e > 1e300:
        return False
    check(abs(float(got) - want.v) <= 60 * want.e + 1e-300, "{}: {} instead of {} (rounding errors up to {})", what, got, want.v, want.e)
    return True


# --- the mathematics, point by point ---


def deriv3(x, y):
    """derivative, at each point, of the parabola through it and its neighbours (through the last three at the ends)"""
    n = len(x)
    out = []
    for i in range(n):
        j = min(max(i, 1), n - 2)
        p = (j - 1, j, j + 1)
        s = E(0.0)
        for a in p:
            b, c = [k for k in p if k != a]
            w = ((E.of(x[i]) - x[b]) + (E.of(x[i]) - x[c])) / ((E.of(x[a]) - x[b]) * (E.of(x[a]) - x[c]))
            s = s + w * y[a]
        out.append(s)
    return out


def spline2(x, y):
    """second derivatives of the natural spline"""
    n = len(x)
    if n < 3:
        return [E(0.0)] * n
    h = [E.of(x[i + 1]) - x[i] for i in range(n - 1)]
    diag, rhs = [], []
    for i in range(1, n - 1):
        d = (h[i - 1] + h[i]) * 2
        r = ((E.of(y[i + 1]) - y[i]) / h[i] - (E.of(y[i]) - y[i - 1]) / h[i - 1]) * 6
        if diag:
            f = h[i - 1] / diag[-1]
            d, r = d - f * h[i - 1], r - f * rhs[-1]
        diag.append(d)
        rhs.append(r)
    m = [E(0.0)]
    for i in range(n - 2, 0, -1):
        m.append((rhs[i - 1] - h[i] * m[-1]) / diag[i - 1])
    return [E(0.0)] + m[:0:-1] + [E(0.0)] if n > 2 else m


def spline_at(x, y, m, t):
    n = len(x)
    k = 0
    for i in range(1, n - 1):
        if t >= x[i]:
            k = i
    h = E.of(x[k + 1]) - x[k]
    a, b = (E.of(x[k + 1]) - t) / h, (E.of(t) - x[k]) / h
    return (a * y[k] + b * y[k + 1] + ((a * a * a - a) * m[k] + (b * b * b - b) * m[k + 1]) * (h * h) / 6)


def integral(x, y):
    """Boole's rule through the spline, at as many equal steps as there are points (a multiple of four)"""
    n = len(x) - 1
    seg = n + (-n) % 4
    m = spline2(x, y)
    h = (E.of(x[-1]) - x[0]) / seg
    s = E(0.0)
    for k in range(seg + 1):
        t = x[0] + (x[-1] - x[0]) * k / float(seg)
        c = 7 if k in (0, seg) else 32 if k % 2 else 12 if k % 4 == 2 else 14
        v = spline_at(x, y, m, min(t, x[-1]))
        # (the position is rounded, too)
        v = E(v.v, v.e + 4 * EPS * (abs(x[0]) + abs(x[-1])) * SLOPE(x, y), v.bad)
        s = s + v * c
    return s * h * 2 / 45


def SLOPE(x, y):
    ys = [abs(E.of(v).v) for v in y]
    return 40 * max(ys + [0]) / min(x[i + 1] - x[i] for i in range(len(x) - 1))


# --- generators ---


@st.composite
def axes(draw, n, kind=None):
    kind = kind or draw(st.sampled_from(["even", "uneven", "levels"]))
    if kind == "even":
        s, d = draw(st.sampled_from([0.0, -3.0, 10.0])), draw(st.sampled_from([1.0, 0.5, 4.0]))
        return [s + i * d for i in range(n)]
    if kind == "levels":
        return sorted(draw(st.permutations([1.0, 5.0, 10.0, 30.0, 70.0, 100.0, 200.0, 300.0, 500.0, 850.0, 1000.0]))[:n])
    s = draw(st.sampled_from([0.0, -3.5, 10.25]))
    out = [s]
    for _ in range(n - 1):
        out.append(out[-1] + draw(st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.25])))
    return out


VAL = st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 3.75, 8.0, -0.125, 10.0])


@st.composite
def numeric(draw):
    n = draw(st.integers(3, 8))
    shape = draw(st.lists(st.integers(1, 3), max_size=2))
    axis = draw(st.integers(0, len(shape)))
    full = shape[:axis] + [n] + shape[axis:]
    ints = draw(st.integers(0, 3)) == 0
    x = draw(axes(n))
    size = int(np.prod(full))
    y = draw(st.lists(st.integers(-9, 9) if ints else VAL, min_size=size, max_size=size))
    c = {"x": x, "y": y, "shape": full, "axis": axis, "ints": ints, "what": draw(st.sampled_from(["deriv", "deriv1", "init", "interp", "int"])),
         "list": draw(st.integers(0, 3)) == 0, "down": draw(st.booleans())}
    if c["what"] == "interp":
        # inside, at the points, and a little outside
        c["at"] = draw(st.lists(st.one_of(st.sampled_from(x), st.floats(x[0], x[-1]), st.sampled_from([x[0] - 0.25, x[-1] + 0.25])),
                                min_size=1, max_size=6))
    return c


def run_numeric(c, stt):
    from pyconform.modules import idl

    x, axis = list(c["x"]), c["axis"]
    y = np.array(c["y"], dtype="i8" if c["ints"] else "f8").reshape(c["shape"])
    if c["what"].startswith("deriv") and c["down"]:
        x = x[::-1]
    xx = np.array(x)
    # splines through descending points are the same curves
    rev = c["what"] in ("init", "interp", "int") and c["down"]
    y0 = y
    if rev:
        idx = tuple(slice(None, None, -1 if i == axis else 1) for i in range(y.ndim))
        xx, y = xx[::-1], y[idx]
    before = (xx.copy(), y.copy())
    yy = y.tolist() if c["list"] else y
    if c["what"] == "deriv":
        got = idl.deriv(x if c["list"] else xx, yy, axis=axis)
        ref = lambda v: deriv3(x, v)
    elif c["what"] == "deriv1":
        if len(c["shape"]) > 1:
            raise Discard("one-dimensional")
        got = idl.deriv(yy)
        ref = lambda v: deriv3([float(i) for i in range(len(v))], v)
    elif c["what"] == "init":
        got = idl.spl_init(xx, y, axis=axis)
        ref = lambda v: spline2(x, v)
    elif c["what"] == "interp":
        got = idl.spl_interp(xx, y, idl.spl_init(xx, y, axis=axis), np.array(c["at"]), axis=axis)
        ref = lambda v: [spline_at(x, v, spline2(x, v), t) for t in c["at"]]
    else:
        got = np.expand_dims(np.asarray(idl.int_tabulated(xx, y, axis=axis)), axis)
        ref = lambda v: [integral(x, v)]
    got = np.asarray(got)
    check((xx == before[0]).all() and (y == before[1]).all(), "{} changed its arguments", c["what"])
    if rev:
        y = y0
        if c["what"] == "init":
            got = got[idx]
        stt.event("descending points")
    rest = [range(n) for i, n in enumerate(c["shape"]) if i != axis]
    for pos in itertools.product(*rest):
        idx = pos[:axis] + (slice(None),) + pos[axis:]
        want = ref([float(v) for v in y[idx]])
        check(got.ndim == len(c["shape"]) and got[idx].shape == (len(want),), "{}: shape {}", c["what"], got.shape)
        for k, (w, g) in enumerate(zip(want, got[idx])):
            agree(w, g, False, "{} of {} at {}, along axis {}: number {}".format(c["what"], y.tolist(), x, axis, k))
    stt.event(c["what"])
    if any(v != 0 for v in c["y"]):
        stt.nt()


# --- the diagnostics ---

P0, A, OM, H, G0 = 101325.0, 6.37123e6, 7.29212e-5, 7000.0, 9.80665
ARGS = {"wtem": "wzm vthzm thzm", "utendwtem": "uzm wzm vthzm thzm", "vtem": "vzm vthzm thzm", "utendvtem": "uzm vzm vthzm thzm",
        "epfy": "uzm uvzm vthzm thzm", "epfz": "uzm uwzm vthzm thzm", "utendepfd": "uzm uvzm uwzm vthzm thzm", "psitem": "vzm vthzm thzm"}
UNITS = {"wtem": "m s-1", "vtem": "m s-1", "utendwtem": "m s-2", "utendvtem": "m s-2", "epfy": "m3 s-2", "epfz": "m3 s-2",
         "utendepfd": "m s-2", "psitem": "kg s-1"}


def reference(name, lev, lat, f):
    """one time, one longitude: fields as f[name][level][latitude]; result likewise"""
    nl, nj = len(lev), len(lat)
    p = [100.0 * v for v in lev]
    phi = [(v / 180.0) * math.pi for v in lat]
    cos = [E(float(np.cos(v)), EPS * abs(float(np.cos(v)))) for v in phi]
    fc = [E(2 * OM * math.sin(v), EPS) for v in phi]

    def ddp(q):
        cols = [deriv3(p, [q[i][j] for i in range(nl)]) for j in range(nj)]
        return [[cols[j][i] for j in range(nj)] for i in range(nl)]

    def ddphi(q):
        return [deriv3(phi, [q[i][j] for j in range(nj)]) for i in range(nl)]

    def grid(g):
        return [[g(i, j) for j in range(nj)] for i in range(nl)]

    th = ddp(f["thzm"])
    psi = grid(lambda i, j: f["vthzm"][i][j] / th[i][j])

    def omega_star():
        w = grid(lambda i, j: f["wzm"][i][j] * (-p[i] / H))
        d = ddphi(grid(lambda i, j: psi[i][j] * cos[j]))
        return grid(lambda i, j: w[i][j] + d[i][j] / (cos[j] * A))

    def v_star():
        d = ddp(psi)
        return grid(lambda i, j: f["vzm"][i][j] - d[i][j])

    def fhat():
        d = ddphi(grid(lambda i, j: f["uzm"][i][j] * cos[j]))
        return grid(lambda i, j: fc[j] - d[i][j] / (cos[j] * A))

    def f_phi():
        d = ddp(f["uzm"])
        return grid(lambda i, j: cos[j] * A * (d[i][j] * psi[i][j] - f["uvzm"][i][j]))

    def f_p():
        h = fhat()
        return grid(lambda i, j: cos[j] * A * (h[i][j] * psi[i][j] - f["uwzm"][i][j] * (-p[i] / H)))

    if name == "wtem":
        o = omega_star()
        return grid(lambda i, j: o[i][j] * (-H / p[i]))
    if name == "vtem":
        return v_star()
    if name == "utendwtem":
        o, d = omega_star(), ddp(f["uzm"])
        return grid(lambda i, j: -(o[i][j] * d[i][j]))
    if name == "utendvtem":
        v, h = v_star(), fhat()
        return grid(lambda i, j: v[i][j] * h[i][j])
    if name == "epfy":
        q = f_phi()
        return grid(lambda i, j: q[i][j] * (p[i] / P0))
    if name == "epfz":
        q = f_p()
        return grid(lambda i, j: q[i][j] * (-H / P0))
    if name == "utendepfd":
        a, b = f_phi(), f_p()
        d1, d2 = ddphi(grid(lambda i, j: a[i][j] * cos[j])), ddp(b)
        return grid(lambda i, j: (d1[i][j] / (cos[j] * A) + d2[i][j]) / (cos[j] * A))
    if name == "psitem":
        # (the integral is that from the top)
        if p[0] > p[-1]:
            return reference(name, lev[::-1], lat, {k: v[::-1] for k, v in f.items()})[::-1]

        def at(i, j):
            s = integral([0.0] + p[:i + 1], [E(0.0)] + [f["vzm"][k][j] for k in range(i + 1)])
            return cos[j] * (2 * math.pi * A / G0) * (s - psi[i][j])
        return grid(at)
    raise ValueError(name)


@st.composite
def fields(draw):
    nt, nl, nj = draw(st.integers(1, 3)), draw(st.integers(3, 5)), draw(st.integers(3, 4))
    lon = draw(st.sampled_from([0, 0, 1, 2]))
    lev = draw(axes(nl, draw(st.sampled_from(["levels", "levels", "even10"])).replace("even10", "levels")))
    lat = sorted(draw(st.permutations([-80.0, -60.0, -45.0, -30.0, -12.5, 0.0, 10.0, 30.0, 55.0, 75.0, 85.0]))[:nj])
    name = draw(st.sampled_from(sorted(ARGS)))
    c = {"name": name, "time": nt, "lev": lev, "lat": lat, "lon": lon, "fields": {}, "miss": {}}
    if draw(st.integers(0, 2)) == 0:
        c["lev"] = lev[::-1]
    if draw(st.integers(0, 2)) == 0:
        c["lat"] = lat[::-1]
    size = nt * nl * nj * max(lon, 1)
    for a in ARGS[name].split():
        c["fields"][a] = draw(st.lists(VAL, min_size=size, max_size=size))
        c["miss"][a] = draw(st.lists(st.integers(0, size - 1), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    return c


def arrays(c):
    shape = (c["time"], len(c["lev"]), len(c["lat"])) + ((c["lon"],) if c["lon"] else ())
    out = {}
    for a, v in c["fields"].items():
        v = np.ma.array(np.array(v).reshape(shape), mask=False)
        if a == "thzm":
            # potential temperature decreases with pressure
            v = v * 0.5 + 300.0 - np.array(c["lev"]).reshape((-1, 1) + (1,) * bool(c["lon"])) * 0.1
        m = np.zeros(v.size, bool)
        m[c["miss"][a]] = True
        out[a] = np.ma.array(v.data, mask=m.reshape(shape))
    return out


def compare(c, a, got, stt, what, scale=1.0):
    shape = (c["time"], len(c["lev"]), len(c["lat"])) + ((c["lon"],) if c["lon"] else ())
    check(got.shape == shape, "{}: shape {} instead of {}", what, got.shape, shape)
    mask = np.ma.getmaskarray(got)
    n = 0
    for t in range(c["time"]):
        for k in range(max(c["lon"], 1)):
            tail = (k,) if c["lon"] else ()
            f = {}
            for name, v in a.items():
                part = v[(t, slice(None), slice(None)) + tail]
                f[name] = [[E(0.0, 0.0, "missing") if part.mask[i, j] else E(float(part.data[i, j])) for j in range(part.shape[1])]
                           for i in range(part.shape[0])]
            r = reference(c["name"], c["lev"], c["lat"], f)
            for i in range(len(c["lev"])):
                for j in range(len(c["lat"])):
                    at = (t, i, j) + tail
                    n += agree(r[i][j] * scale, got.data[at], mask[at], "{} at {}".format(what, at))
    return n


def run_plain(c, stt):
    from pyconform.modules import dynvarmipdiags as D

    if any(c["miss"].values()):
        c = dict(c, miss={a: [] for a in c["miss"]})
    a = arrays(c)
    args = [a[n].data for n in ARGS[c["name"]].split()]
    copies = [x.copy() for x in args]
    with np.errstate(all="ignore"):
        got = getattr(D, c["name"])(np.arange(float(c["time"])), np.array(c["lev"]), np.array(c["lat"]), *args)
    check(all((x == y).all() for x, y in zip(args, copies)), "{} changed its arguments", c["name"])
    n = compare(c, a, np.ma.array(got), stt, c["name"])
    stt.event(c["name"])
    if n > got.size / 2 and got.any():
        stt.nt()


OUTUNITS = {"m s-1": [("m s-1", 1.0), ("cm s-1", 100.0)], "m s-2": [("m s-2", 1.0), ("m s-1 d-1", 86400.0)],
            "m3 s-2": [("m3 s-2", 1.0)], "kg s-1": [("kg s-1", 1.0), ("g s-1", 1000.0)]}


@st.composite
def flows(draw):
    c = draw(fields())
    c["chunks"] = draw(st.sampled_from([None, None, "time", "time", "lev", "lat", "lon"]))
    c["n"] = draw(st.integers(1, 3))
    c["units"] = draw(st.integers(0, 1))
    return c


def run_flow(c, stt):
    import pyconform.modules.dynvarmipfunctions  # noqa
    from netCDF4 import Dataset
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from collections import OrderedDict

    a = arrays(c)
    name = c["name"]
    choices = OUTUNITS[UNITS[name]]
    units, scale = choices[c["units"] % len(choices)]
    dims = ["time", "lev", "lat"] + (["lon"] if c["lon"] else [])
    with W.scratch() as root:
        fn = root + "/in.nc"
        with Dataset(fn, "w") as nc:
            for d, n in zip(dims, a["thzm"].shape):
                nc.createDimension(d, n)
            for v, d, data, u in [("time", "time", np.arange(float(c["time"])), "days since 2000-01-01"), ("lev", "lev", c["lev"], "hPa"),
                                  ("lat", "lat", c["lat"], "degrees_north")] + ([("lon", "lon", np.arange(float(c["lon"])), "degrees_east")] if c["lon"] else []):
                x = nc.createVariable(v, "f8", (d,))
                x.units = u
                if v == "time":
                    x.calendar = "noleap"
                x[:] = data
            for v, data in a.items():
                x = nc.createVariable(v, "f8", dims, fill_value=1e20)
                x.units = "1"
                x[...] = data
        spec = OrderedDict()
        for d in dims:
            at = {"units": {"time": "days since 2000-01-01", "lev": "hPa", "lat": "degrees_north", "lon": "degrees_east"}[d]}
            if d == "time":
                at["calendar"] = "noleap"
            spec[d] = {"datatype": "double", "dimensions": [d], "definition": d, "attributes": at}
        out = root + "/out.nc"
        att = {"units": units, "_FillValue": 1e20}
        if name == "epfz":
            att["positive"] = "up"
        spec["o"] = {"datatype": "double", "dimensions": dims, "attributes": att, "file": {"filename": out},
                     "definition": "dynvarmip_{}(time, lev, lat, {})".format(name, ", ".join(ARGS[name].split()))}
        with np.errstate(all="ignore"):
            flow = DataFlow(InputDatasetDesc("in", filenames=[fn]), OutputDatasetDesc("out", dsdict=spec))
            ch = {c["chunks"]: c["n"]} if c["chunks"] in dims else {}
            if c["chunks"] in ("lev", "lat"):
                try:
                    flow.execute(chunks=ch, serial=True)
                except ValueError:
                    stt.event("refused chunks")
                    stt.nt()
                    return
                # accepted: then it has to be right
            else:
                flow.execute(chunks=ch, serial=True)
        with Dataset(out) as nc:
            got = np.ma.array(nc["o"][...])
    n = compare(c, a, got, stt, "dynvarmip_{} in {} (chunks {})".format(name, units, ch), scale)
    stt.event("missing values", int(any(c["miss"].values())))
    stt.event("chunks", len(ch))
    if n > got.size / 2:
        stt.nt()


PROP = Prop(
    "C24",
    [Sub("numerics", numeric, run_numeric, quick=1500), Sub("diagnostics", fields, run_plain, quick=400), Sub("flow", flows, run_flow, quick=250)],
    rule="derivatives, natural splines and integrals on even and uneven axes against the textbook formulas, along any axis of arrays of up "
    "to 3 dimensions; the eight diagnostics for fields of up to 3 times, 5 levels, 4 latitudes (and longitudes), levels and latitudes in "
    "either order, against the equations evaluated point by point with a bound of the rounding errors; the same in data flows with missing values, other units and "
    "chunks (refused over levels and latitudes); non-trivial: more than half of the values are determined",
)
