"""C25: the functions of the model library compute what they are for"""
import importlib
import math
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Discard, Prop, Sub, check
from pbt.gen import lengthen

VAL = st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 3.75, 8.0, -0.125, 10.0])
POSV = st.sampled_from([1.0, 2.0, 0.5, 3.75, 8.0, 0.125, 10.0])
DAYS = [31.0, 28.0, 31.0, 30.0, 31.0, 30.0, 31.0, 31.0, 30.0, 31.0, 30.0, 31.0]
UNIT = {"K": [("K", 1.0, 0.0), ("degC", 1.0, -273.15)], "m": [("m", 1.0, 0.0), ("cm", 100.0, 0.0)],
        "W m-2": [("W m-2", 1.0, 0.0), ("kW m-2", 1e-3, 0.0)], "kg": [("kg", 1.0, 0.0), ("g", 1000.0, 0.0)], "1": [("1", 1.0, 0.0), ("%", 100.0, 0.0)]}
NOLEAP = "days since 2000-01-01"


class Case(object):
    """what a function is called with: variables [dims, type, units, values, missing] under their names"""

    def __init__(self, draw, sizes):
        self.draw, self.sizes, self.vars, self.call = draw, sizes, OrderedDict(), []

    def n(self, dims):
        return int(np.prod([self.sizes[d] for d in dims], dtype=int))

    def var(self, name, dims, units="1", values=VAL, dtype="f8", missing=0, vals=None, arg=True):
        dims = dims.split()
        n = self.n(dims)
        if vals is None:
            vals = self.draw(st.lists(values, min_size=n, max_size=n))
        miss = self.draw(st.lists(st.integers(0, n - 1), max_size=missing, unique=True)) if missing and n else []
        self.vars[name] = [dims, dtype, units, list(vals), miss]
        if arg:
            self.call.append(name)

    def coord(self, name, dim, units="1", vals=None, arg=True):
        vals = [float(k + 1) for k in range(self.sizes[dim])] if vals is None else vals
        self.var(name, dim, units, vals=vals, arg=arg)

    def text(self, s):
        self.call.append(["text", s])

    def done(self, fn, **kw):
        return dict({"fn": fn, "sizes": self.sizes, "vars": [[k] + v for k, v in self.vars.items()], "call": self.call}, **kw)


def masked(c):
    out = {}
    for name, dims, dtype, units, vals, miss in c["vars"]:
        m = np.zeros(len(vals), bool)
        m[miss] = True
        a = np.array(vals, dtype=dtype)
        a[m] = 1e20 if dtype.startswith("f") else -999
        out[name] = np.ma.array(a, mask=m).reshape([c["sizes"][d] for d in dims])
        out[name].set_fill_value(1e20 if dtype.startswith("f") else -999)
    return out


def cells(shape):
    return np.ndindex(*shape)


# --- ocean ---
def ocean(draw, four=True, land=None):
    sizes = {"t": draw(st.integers(1, 3)), "z": draw(st.integers(1, 4)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 3))}
    sizes = lengthen(draw, sizes, 15)
    k = Case(draw, sizes)
    n = sizes["y"] * sizes["x"]
    kmt = draw(st.lists(st.integers(0, sizes["z"]), min_size=n, max_size=n))
    if not any(kmt):
        kmt[0] = sizes["z"]
    k.var("KMT", "y x", vals=kmt, dtype="i4")
    k.kmt = kmt
    k.land = draw(st.booleans()) if land is None else land
    return k


def field(k, name, dims, units):
    """values are missing where there is no sea (or given there, too)"""
    k.var(name, dims, units)
    if k.land:
        n, nxy = k.n(dims.split()), len(k.kmt)
        nz = k.sizes["z"] if "z" in dims.split() else 1
        k.vars[name][4] = [i for i in range(n) if (i // nxy) % nz >= k.kmt[i % nxy]]


@st.composite
def g_surf(draw):
    k = ocean(draw)
    k.var("TAREA", "y x", "m2", POSV)
    field(k, "F", "t y x", draw(st.sampled_from(["K", "W m-2"])))
    return k.done("POP_surf_mean")


def r_surf(c, a):
    K, A, F = a["KMT"], a["TAREA"], a["F"]
    out = []
    for t in range(F.shape[0]):
        p = [(A[p], F[(t,) + p]) for p in cells(K.shape) if K[p] > 0]
        out.append(math.fsum(x * y for x, y in p) / math.fsum(x for x, _ in p))
    return "t", out, None, "F"


@st.composite
def g_mean3(draw):
    k = ocean(draw)
    k.var("dz", "z", "m", POSV)
    k.var("TAREA", "y x", "m2", POSV)
    field(k, "F", "t z y x", draw(st.sampled_from(["K", "W m-2"])))
    return k.done("POP_3D_mean")


def r_mean3(c, a):
    K, A, F, dz = a["KMT"], a["TAREA"], a["F"], a["dz"]
    out = []
    for t in range(F.shape[0]):
        p = [(A[j, i] * dz[z], F[t, z, j, i]) for z, j, i in cells(F.shape[1:]) if z < K[j, i]]
        out.append(math.fsum(x * y for x, y in p) / math.fsum(x for x, _ in p))
    return "t", out, None, "F"


@st.composite
def g_laysum(draw):
    k = ocean(draw)
    k.var("dz", "z", "m", POSV)
    field(k, "F", "t z y x", draw(st.sampled_from(["W m-2", "1"])))
    return k.done("POP_layer_sum_mult")


def r_laysum(c, a):
    K, F, dz = a["KMT"], a["F"], a["dz"]
    out = np.zeros((F.shape[0],) + K.shape)
    for t, j, i in cells(out.shape):
        out[t, j, i] = math.fsum(dz[z] * F[t, z, j, i] for z in range(K[j, i]))
    return "t y x", out, np.broadcast_to(K == 0, out.shape), "dz*F"


@st.composite
def g_botadd(draw):
    k = ocean(draw, land=True)
    k.var("dz", "z", "m", POSV)
    field(k, "F", "t z y x", draw(st.sampled_from(["W m-2", "1"])))
    return k.done("POP_bottom_layer_multadd")


def r_botadd(c, a):
    K, F, dz = a["KMT"], a["F"], a["dz"]
    out = [math.fsum(dz[K[p] - 1] * F[(t, K[p] - 1) + p] for p in cells(K.shape) if K[p] > 0) for t in range(F.shape[0])]
    return "t", out, None, "dz*F"


@st.composite
def g_bot(draw):
    k = ocean(draw)
    field(k, "F", "t z y x", draw(st.sampled_from(["K", "W m-2"])))
    return k.done("POP_bottom_layer")


def r_bot(c, a):
    K, F = a["KMT"], a["F"]
    out = np.zeros((F.shape[0],) + K.shape)
    for t, j, i in cells(out.shape):
        out[t, j, i] = F[t, K[j, i] - 1, j, i] if K[j, i] else 0
    return "t y x", out, np.broadcast_to(K == 0, out.shape), "F"


@st.composite
def g_diff(draw):
    k = ocean(draw)
    k.sizes["w"] = k.sizes["z"]
    k.coord("zw", "w", "m")
    field(k, "F", "t z y x", draw(st.sampled_from(["W m-2", "m"])))
    return k.done(draw(st.sampled_from(["diff_axis1_ind0bczero_4d", "rsdoabsorb"])))


def r_diff(c, a):
    K, F = a["KMT"], a["F"]
    out, m = np.zeros(F.shape), np.zeros(F.shape, bool)
    for t, z, j, i in cells(F.shape):
        if z >= K[j, i]:
            m[t, z, j, i] = True
        elif c["fn"] == "rsdoabsorb":
            # what comes in at the top and does not go on below; all of it at the bottom
            out[t, z, j, i] = F[t, z, j, i] - (F[t, z + 1, j, i] if z + 1 < K[j, i] else 0)
        else:
            out[t, z, j, i] = F[t, z, j, i] - (F[t, z - 1, j, i] if z else 0)
    return "t w y x", out, m, "F"


@st.composite
def g_sftof(draw):
    return ocean(draw).done("sftof")


def r_sftof(c, a):
    return "y x", (a["KMT"] > 0).astype(float), None, "KMT"


@st.composite
def g_basin(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "r": 2, "c": draw(st.integers(1, 3)), "z": draw(st.integers(1, 2)), "y": draw(st.integers(1, 3)), "b": 3})
    k.var("F", "t r c z y", "m", missing=2)
    k.text(str(draw(st.integers(0, k.sizes["c"] - 1))))
    k.coord("basin", "b")
    return k.done("ocean_basin")


def r_basin(c, a):
    F = a["F"][:, :, int(c["call"][1][1])]
    out = np.ma.zeros((F.shape[0], F.shape[3], F.shape[2], 3))
    for t, x, z in cells(out.shape[:3]):
        out[t, x, z, 0] = F[t, 1, z, x]
        out[t, x, z, 1] = F[t, 0, z, x] - F[t, 1, z, x]
        out[t, x, z, 2] = F[t, 0, z, x]
    return "t y z b", out.data, np.ma.getmaskarray(out), "F"


# --- ice ---
@st.composite
def g_where(draw):
    k = Case(draw, {"t": draw(st.integers(1, 3)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 3))})
    k.var("A", "t y x", "1", missing=2)
    k.text(draw(st.sampled_from([">", "<", ">=", "<=", "=="])))
    k.call.append(draw(st.sampled_from([0, 1, 0.5, 2])))
    k.var("B", "t y x", draw(st.sampled_from(["K", "m"])), missing=2)
    k.call.append(draw(st.sampled_from([0, 1, 2.5])))
    return k.done("cice_where")


def r_where(c, a):
    import operator as o

    op = {">": o.gt, "<": o.lt, ">=": o.ge, "<=": o.le, "==": o.eq}[c["call"][1][1]]
    A, B = a["A"], a["B"]
    out, m = np.zeros(A.shape), np.zeros(A.shape, bool)
    for p in cells(A.shape):
        if np.ma.is_masked(A[p]):
            m[p] = True
        elif op(A[p], c["call"][2]):
            m[p] = np.ma.is_masked(B[p])
            out[p] = 0 if m[p] else B[p]
        else:
            out[p] = c["call"][4]
    return "t y x", out, m, "B"


# --- land ---
@st.composite
def g_burnt(draw):
    k = Case(draw, {"t": draw(st.one_of(st.integers(1, 5), st.integers(12, 26))), "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2))})
    k.var("F", "t y x", draw(st.sampled_from(["1", "s-1"])), missing=3)
    return k.done("burntFraction")


def r_burnt(c, a):
    F = a["F"]
    out = np.zeros(F.shape)
    for p in cells(F.shape):
        out[p] = 0 if np.ma.is_masked(F[p]) else F[p] * DAYS[p[0] % 12] * 86400 * 100
    return "t y x", out, np.ma.getmaskarray(F), "F"


@st.composite
def g_lu(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "l": 9, "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2)), "u": 4})
    k.var("F", "t l y x", "W m-2", missing=4)
    k.coord("lu", "u")
    return k.done("reduce_lu")


def r_lu(c, a):
    F = a["F"]
    out = np.ma.zeros((F.shape[0], 4) + F.shape[2:])
    out[:, 0] = F[:, 0]
    out[:, 2] = F[:, 1]
    out[:, 3] = F[:, 6] + F[:, 7] + F[:, 8]
    return "t u y x", out.data, np.ma.getmaskarray(out), "F"


@st.composite
def g_soil(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2)), "p": 3})
    for v in "ABC":
        k.var(v, "t y x", "kg", missing=2)
    k.coord("pool", "p")
    return k.done("get_soilpools")


def r_soil(c, a):
    out = np.ma.stack([a[v] for v in "ABC"], axis=1)
    return "t p y x", out.data, np.ma.getmaskarray(out), "A"


@st.composite
def g_veg(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "p": 15, "q": 2, "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2)), "u": 4})
    k.var("N", "t p y x", "%", POSV)
    k.var("C", "t q y x", "%", st.sampled_from([0.0, 1.0, 30.0]))
    k.var("L", "y x", "1", st.sampled_from([0.0, 0.5, 1.0]), missing=2)
    k.coord("lu", "u")
    return k.done("get_nonwoodyveg")


def r_veg(c, a):
    N, C, L = a["N"], a["C"], a["L"]
    out, m = np.zeros((N.shape[0], 4) + N.shape[2:]), np.zeros((N.shape[0], 4) + N.shape[2:], bool)
    for t, j, i in np.ndindex(N.shape[0], *N.shape[2:]):
        out[t, 0, j, i] = N[t, 12, j, i] + N[t, 13, j, i] + N[t, 14, j, i]
        if np.ma.is_masked(L[j, i]):
            m[t, 1:, j, i] = True
        else:
            out[t, 2, j, i] = 100.0 if C[t, 1, j, i] > 0 else 0.0
    return "t u y x", out, m, "N"


@st.composite
def g_expand(draw):
    k = Case(draw, {"t": draw(st.integers(1, 3)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 3))})
    k.var("F", "t", draw(st.sampled_from(["K", "m"])), missing=1)
    k.coord("lat", "y")
    k.coord("lon", "x")
    return k.done("expand_latlon")


def r_expand(c, a):
    s = c["sizes"]
    out = np.ma.array(np.zeros((s["t"], s["y"], s["x"]))) + a["F"].reshape((-1, 1, 1))
    return "t y x", out.data, np.ma.getmaskarray(out), "F"


# --- atmosphere ---
@st.composite
def g_zonal(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "z": draw(st.integers(1, 3)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 4))})
    k.var("F", "t z y x", draw(st.sampled_from(["K", "m"])), missing=3)
    return k.done("zonalmean")


def r_zonal(c, a):
    F = a["F"]
    out, m = np.zeros(F.shape[:3]), np.zeros(F.shape[:3], bool)
    for p in cells(out.shape):
        v = [x for x in F[p] if not np.ma.is_masked(x)]
        m[p] = not v
        out[p] = math.fsum(v) / len(v) if v else 0
    return "t z y", out, m, "F"


@st.composite
def g_invalid(draw):
    k = Case(draw, {"t": draw(st.integers(1, 2)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 3))})
    k.var("F", "t y x", draw(st.sampled_from(["K", "m"])), st.sampled_from([1.0, 2.0, -3.0, "nan", "inf", "-inf"]), missing=1)
    return k.done("masked_invalid")


def r_invalid(c, a):
    F = a["F"]
    m = np.ma.getmaskarray(F) | ~np.isfinite(F.data)
    return "t y x", np.where(m, 0, F.data), m, "F"


@st.composite
def g_age(draw):
    k = Case(draw, {"t": draw(st.integers(2, 6)), "z": draw(st.integers(1, 3)), "y": draw(st.integers(1, 3))})
    # a tracer that grows at the reference point
    n = k.n(["z", "y"])
    start, steps = draw(st.integers(0, 30)), draw(st.lists(st.integers(1, 9), min_size=k.sizes["t"], max_size=k.sizes["t"]))
    lag = [0] + draw(st.lists(st.integers(0, 20), min_size=n - 1, max_size=n - 1))
    vals = []
    for t in range(k.sizes["t"]):
        ref = start + sum(steps[:t])
        vals += [float(ref - g) if draw(st.integers(0, 3)) else ref - g / 2.0 for g in lag]
        vals[len(vals) - n] = float(ref)
    k.var("F", "t z y", "1", vals=vals)
    y, m = draw(st.integers(1, 2010)), draw(st.integers(1, 12))
    k.var("date", "t", "1", dtype="i4", vals=[(y + (m + t - 1) // 12) * 10000 + ((m + t - 1) % 12 + 1) * 100 + 1 for t in range(k.sizes["t"])])
    k.coord("time", "t", NOLEAP)
    k.coord("lat", "y")
    k.coord("lev", "z")
    return k.done("ageofair")


def r_age(c, a):
    F = a["F"]
    # a date is the first of the month that follows
    yr = [d // 10000 + (d // 100 % 100 - 1.5) / 12.0 for d in a["date"].tolist()]
    ref = F[:, 0, 0].tolist()
    out = np.zeros(F.shape)
    for t, z, j in cells(F.shape):
        v = F[t, z, j]
        if v <= ref[0]:
            when = yr[0]
        elif v >= ref[-1]:
            when = yr[-1]
        else:
            s = max(i for i in range(len(ref)) if ref[i] <= v)
            when = yr[s] + (v - ref[s]) / (ref[s + 1] - ref[s]) * (yr[s + 1] - yr[s])
        out[t, z, j] = yr[t] - when
    return "t z y", out, None, "yr"


# --- time ---
@st.composite
def g_oclim(draw):
    fn = draw(st.sampled_from(["oclim", "monthtoyear_noleap"]))
    k = Case(draw, {"t": 12 * draw(st.integers(1, 3)), "z": draw(st.integers(1, 2)), "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2))})
    k.var("F", draw(st.sampled_from(["t y x", "t z y x"])), draw(st.sampled_from(["K", "m"])), missing=3)
    return k.done(fn)


def r_oclim(c, a):
    F = a["F"]
    ny = F.shape[0] // 12
    if c["fn"] == "oclim":
        groups, w = [[m + 12 * y for y in range(ny)] for m in range(12)], [1.0] * ny
    else:
        groups, w = [[m + 12 * y for m in range(12)] for y in range(ny)], DAYS
    out, mask = np.zeros((len(groups),) + F.shape[1:]), np.zeros((len(groups),) + F.shape[1:], bool)
    for g, idx in enumerate(groups):
        for p in cells(F.shape[1:]):
            v = [F[(i,) + p] for i in idx]
            if any(np.ma.is_masked(x) for x in v):
                mask[(g,) + p] = True
            else:
                out[(g,) + p] = math.fsum(x * q for x, q in zip(v, w)) / math.fsum(w)
    return " ".join(c["vars"][0][1]), out, mask, "F"


@st.composite
def g_y2m(draw):
    three = draw(st.booleans())
    k = Case(draw, {"t": draw(st.integers(1, 3)), "v": draw(st.integers(1, 2)), "y": draw(st.integers(1, 2)), "x": draw(st.integers(1, 2))})
    k.var("F", "t v y x" if three else "t y x", draw(st.sampled_from(["K", "m"])), missing=2)
    zero = draw(st.booleans()) and k.sizes["t"] > 1
    y = 0 if zero else draw(st.integers(1, 50))
    k.coord("time", "t", NOLEAP, [365.0 * (y + i) for i in range(k.sizes["t"])])
    k.coord("lat", "y")
    k.coord("lon", "x")
    if three:
        k.coord("vv", "v")
    return k.done("yeartomonth_data3D" if three else "yeartomonth_data")


def r_y2m(c, a):
    F, T = a["F"], a["time"]
    years = [i for i in range(len(T)) if T[i] != 0]
    out = np.ma.concatenate([np.ma.stack([F[i]] * 12) for i in years])
    return " ".join(c["vars"][0][1]), out.data, np.ma.getmaskarray(out), "F"


@st.composite
def g_y2mt(draw):
    k = Case(draw, {"t": draw(st.integers(1, 3))})
    y = draw(st.integers(0 if k.sizes["t"] > 1 else 1, 50))
    k.coord("time", "t", NOLEAP, [365.0 * (y + i) for i in range(k.sizes["t"])])
    return k.done("yeartomonth_time")


def r_y2mt(c, a):
    out = []
    for t in a["time"]:
        if t != 0:
            # the middles of the months of the year that ends there
            out += [t - 365 + sum(DAYS[:m]) + DAYS[m] / 2 for m in range(12)]
    return "t", out, None, "time"


@st.composite
def g_bnd(draw):
    """times (at the ends of months) and their bounds"""
    fn = draw(st.sampled_from(["oclim_time", "oclim_timebnds", "monthtoyear_noleap_time", "monthtoyear_noleap_timebnds"]))
    ny, y0 = draw(st.integers(1, 3)), draw(st.integers(0, 50))
    k = Case(draw, {"t": 12 * ny, "d2": 2})
    hi = [365.0 * (y0 + y) + sum(DAYS[:m + 1]) for y in range(ny) for m in range(12)]
    kw = {}
    if fn == "oclim_timebnds":
        k.var("T", "t", NOLEAP, vals=hi)
    else:
        k.var("B", "t d2", NOLEAP, vals=[v for i, h in enumerate(hi) for v in (h - DAYS[i % 12], h)])
    if fn.endswith("bnds") and draw(st.booleans()):
        kw["bdim"] = draw(st.sampled_from(["d2", "nb"]))
    return k.done(fn, kw=kw)


def r_bnd(c, a):
    T = a["T"] if "T" in a else a["B"][:, 1]
    ny = len(T) // 12
    lo = T - np.array(DAYS * ny)
    if c["fn"].startswith("oclim"):
        # the months of the first year; their bounds are those of the first and last years
        out = [[lo[m], T[12 * (ny - 1) + m]] if c["fn"].endswith("bnds") else (lo[m] + T[m]) / 2 for m in range(12)]
    else:
        # (the times of the model are a year late)
        out = [[lo[12 * y] - 365, T[12 * y + 11] - 365] for y in range(ny)]
        out = out if c["fn"].endswith("bnds") else [(p + q) / 2 for p, q in out]
    return "t " + c["kw"].get("bdim", "d2") if c["fn"].endswith("bnds") else "t", out, None, "T" if "T" in a else "B"


@st.composite
def g_hemi(draw):
    k = Case(draw, {"t": draw(st.integers(1, 3)), "nlat": draw(st.integers(2, 5)), "nlon": draw(st.integers(2, 4))})
    k.var("F", "t nlat nlon", draw(st.sampled_from(["K", "m"])), missing=3)
    # (any part of its name tells the dimension)
    return k.done("hemisphere", kw={"dim": draw(st.sampled_from(["nlat", "lat", "nlon", "t"])), "dr": draw(st.sampled_from([">", "<"]))})


def r_hemi(c, a):
    F = a["F"]
    ax = [c["kw"]["dim"] in d for d in ("t", "nlat", "nlon")].index(True)
    n = F.shape[ax]
    out = np.ma.take(F, list(range(n // 2, n) if c["kw"]["dr"] == ">" else range(n // 2)), axis=ax)
    return "t nlat nlon", out.data, np.ma.getmaskarray(out), "F"


# --- bounds ---
@st.composite
def g_bounds(draw):
    k = Case(draw, {"t": draw(st.integers(2, 5))})
    ints = draw(st.integers(0, 3)) == 0
    x, steps = draw(st.integers(-5, 5)), draw(st.lists(st.integers(1, 6), min_size=2 * k.sizes["t"] + 2, max_size=2 * k.sizes["t"] + 2))
    sgn = draw(st.sampled_from([1, -1]))
    pts = [x]
    for s in steps:
        pts.append(pts[-1] + sgn * s)
    f = 1 if ints else 0.5
    k.var("X", "t", draw(st.sampled_from(["m", "K"])), vals=[p * f for p in pts[1:2 * k.sizes["t"]:2]], dtype="i4" if ints else "f8")
    kw = {"location": draw(st.integers(0, 2))}
    if draw(st.booleans()):
        kw["endpoints"] = draw(st.integers(0, 1))
    if draw(st.booleans()):
        kw["bdim"] = draw(st.sampled_from(["bnds", "nb"]))
    inner = draw(st.sampled_from([None, None, False, True]))
    if inner is not None and not (inner and k.sizes["t"] < 2):
        i = pts[2:2 * k.sizes["t"] - 1:2] if inner else pts[0:2 * k.sizes["t"] + 1:2]
        k.sizes["i"] = len(i)
        k.var("I", "i", k.vars["X"][2], vals=[p * f for p in i], dtype=k.vars["X"][1], arg=False)
        kw["idata"] = "I"
    if "i" in k.sizes and k.sizes["i"] == 0:
        del k.vars["I"], kw["idata"]
    return k.done("bounds", kw=kw)


def r_bounds(c, a):
    X = [float(v) for v in a["X"]]
    kw = c["kw"]
    n, loc = len(X), kw["location"]
    end = kw.get("endpoints", 1)
    if "idata" in kw:
        I = [float(v) for v in a["I"]]
        if len(I) == n - 1:
            lo = {0: X[0], 1: 2 * X[0] - I[0], 2: 2 * X[0] - X[1]}[loc]
            hi = {0: 2 * X[-1] - X[-2], 1: 2 * X[-1] - I[-1], 2: X[-1]}[loc]
            I = [lo] + I + [hi]
        out = [[I[k], I[k + 1]] for k in range(n)]
    else:
        out = [[v, v] for v in X]
        for k in range(n):
            up = X[k + 1] - X[k] if k + 1 < n else (X[k] - X[k - 1] if end else 0)
            dn = X[k] - X[k - 1] if k else (X[1] - X[0] if end else 0)
            if loc == 0:
                out[k][1] = X[k] + up
            elif loc == 2:
                out[k][0] = X[k] - dn
            else:
                out[k] = [X[k] - dn / 2, X[k] + up / 2]
    return "t " + kw.get("bdim", "bnds"), out, None, "X"


FUNCS = {f: (g, r) for g, r, fs in [
    (g_surf, r_surf, "POP_surf_mean"), (g_mean3, r_mean3, "POP_3D_mean"), (g_laysum, r_laysum, "POP_layer_sum_mult"),
    (g_botadd, r_botadd, "POP_bottom_layer_multadd"), (g_bot, r_bot, "POP_bottom_layer"),
    (g_diff, r_diff, "diff_axis1_ind0bczero_4d rsdoabsorb"), (g_sftof, r_sftof, "sftof"), (g_basin, r_basin, "ocean_basin"),
    (g_where, r_where, "cice_where"), (g_burnt, r_burnt, "burntFraction"), (g_lu, r_lu, "reduce_lu"), (g_soil, r_soil, "get_soilpools"),
    (g_veg, r_veg, "get_nonwoodyveg"), (g_expand, r_expand, "expand_latlon"), (g_zonal, r_zonal, "zonalmean"),
    (g_invalid, r_invalid, "masked_invalid"), (g_age, r_age, "ageofair"), (g_oclim, r_oclim, "oclim monthtoyear_noleap"),
    (g_y2m, r_y2m, "yeartomonth_data yeartomonth_data3D"), (g_y2mt, r_y2mt, "yeartomonth_time"), (g_bounds, r_bounds, "bounds"), (g_hemi, r_hemi, "hemisphere"),
    (g_bnd, r_bnd, "oclim_time oclim_timebnds monthtoyear_noleap_time monthtoyear_noleap_timebnds")]
    for f in fs.split()}


@st.composite
def cases(draw):
    return draw(draw(st.sampled_from(sorted({g for g, _ in FUNCS.values()}, key=lambda g: g.__name__)))())


def units_of(c, ref):
    from cf_units import Unit

    us = {v[0]: Unit(v[3], calendar="noleap" if "since" in v[3] else None) for v in c["vars"]}
    u = None
    for p in ref.split("*"):
        x = us.get(p) or Unit(p)
        u = x if u is None else u * x
    return u


MODULE, ROUGH = {}, {}


def compare(want, wmask, got, what, rel=1e-10):
    want = np.array(want, float)
    check(got.shape == want.shape, "{}: shape {} instead of {}", what, got.shape, want.shape)
    gm = np.ma.getmaskarray(got)
    wm = np.zeros(want.shape, bool) if wmask is None else np.array(wmask)
    check((gm == wm).all(), "{}: missing {} instead of {}", what, gm.tolist(), wm.tolist())
    scale = max(1.0, float(np.abs(np.where(wm, 0, want)).max(initial=0)))
    ok = np.abs(np.ma.getdata(got) - want) <= rel * scale
    check((ok | wm).all(), "{}: {} instead of {}", what, got.tolist(), np.ma.array(want, mask=wm).tolist())


def call_text(c, mult=""):
    args = []
    for x in c["call"]:
        args.append(x if isinstance(x, str) else '"%s"' % x[1] if isinstance(x, list) else repr(x))
    args += ["%s=%s" % (k, v if k == "idata" or not isinstance(v, str) else '"%s"' % v) for k, v in sorted(c.get("kw", {}).items())]
    return "%s%s(%s)" % (mult, c["fn"], ", ".join(args))


def run_direct(c, stt):
    from cf_units import Unit
    importlib.import_module("pyconform.modules." + MODULE.get(c["fn"], "commonfunctions"))
    from pyconform import functions
    from pyconform.physarray import PhysArray

    arr = masked(c)
    P = {}
    for name, dims, dtype, units, vals, miss in c["vars"]:
        u = Unit(units, calendar="noleap") if "since" in units else units
        P[name] = PhysArray(arr[name], name=name, units=u, dimensions=tuple(dims))
    before = {k: v.copy() for k, v in P.items()}

    class Source(object):
        def __init__(self, a):
            self.a = a

        def __getitem__(self, index):
            if index is None:
                return PhysArray(np.zeros((0,) * self.a.ndim), name=self.a.name, units=self.a.units, dimensions=self.a.dimensions)
            return self.a[index]

    args = [Source(P[x]) if isinstance(x, str) else x[1] if isinstance(x, list) else x for x in c["call"]]
    kw = {k: (Source(P[v]) if k == "idata" else v) for k, v in c.get("kw", {}).items()}
    with np.errstate(all="ignore"):
        f = functions.find(c["fn"])(*args, **kw)
        info = f[None]
        got = f[:]
    dims, want, wmask, ref = FUNCS[c["fn"]][1](c, arr)
    what = call_text(c)
    compare(want, wmask, got, what, ROUGH.get(c["fn"], 1e-10))
    check(got.dimensions == tuple(dims.split()), "{}: dimensions {} instead of {}", what, got.dimensions, dims)
    u = units_of(c, ref)
    check(got.units == u, "{}: units {} instead of {}", what, got.units, u)
    check(info.dimensions == got.dimensions, "{}: announced dimensions {}, given {}", what, info.dimensions, got.dimensions)
    check(info.units == got.units, "{}: announced units {}, given {}", what, info.units, got.units)
    for k in P:
        check((np.ma.getmaskarray(P[k]) == np.ma.getmaskarray(before[k])).all()
              and (P[k].data == before[k].data)[~np.ma.getmaskarray(P[k]) & (before[k].data == before[k].data)].all(), "{} changed {}", what, k)
    stt.event(c["fn"])
    stt.nt()


LONGER = ("oclim", "monthtoyear_noleap", "yeartomonth_data", "yeartomonth_data3D", "yeartomonth_time",
          "oclim_time", "oclim_timebnds", "monthtoyear_noleap_time", "monthtoyear_noleap_timebnds")


# dimensions that a function needs as a whole: chunks over them may be refused
WHOLE = {"ageofair": "t z y", "hemisphere": "t"}
# dimensions that a function adds or renames
NEW = {"diff_axis1_ind0bczero_4d": "w", "rsdoabsorb": "w", "reduce_lu": "u", "get_nonwoodyveg": "u", "get_soilpools": "p", "ocean_basin": "b",
       "oclim_timebnds": "d2 nb", "monthtoyear_noleap_timebnds": "d2 nb"}


def with_flow(draw, c):
    c["factor"] = draw(st.sampled_from([1, 1, 2]))
    c["units"] = draw(st.sampled_from([0, 1, None]))
    c["chunk"] = draw(st.one_of(st.just(None), st.tuples(st.sampled_from([0, 0, 1, 2, 3]), st.integers(1, 2))))
    return c


@st.composite
def flows(draw):
    return with_flow(draw, draw(cases()))


def run_flow(c, stt):
    importlib.import_module("pyconform.modules." + MODULE.get(c["fn"], "commonfunctions"))
    from cf_units import Unit
    from netCDF4 import Dataset
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    arr = masked(c)
    dims, want, wmask, ref = FUNCS[c["fn"]][1](c, arr)
    dims = dims.split()
    sizes, longer = dict(c["sizes"]), c["fn"] in LONGER
    for d in dims:
        # (a dimension of the result has to be in the input)
        sizes.setdefault(d, 2)
    u = units_of(c, ref)
    text = call_text(c, "" if c["factor"] == 1 or u.is_time_reference() else "%d * " % c["factor"])
    if c["fn"] == "hemisphere":
        half = [d for d in dims if c["kw"]["dim"] in d][0]
        if half == "t":
            longer = True
        else:
            # (a dimension of the output has the length it has in the input)
            h = np.ma.sum(np.ma.array(want, mask=wmask), axis=dims.index(half))
            want, wmask = h.data, np.ma.getmaskarray(h)
            dims.remove(half)
            text = text.replace("hemisphere(", "sum(hemisphere(") + ', "%s")' % half
    out_u, f = u, float(c["factor"])
    if u.is_time_reference():
        f = 1.0
    else:
        for alt in UNIT.get(str(u), [])[c["units"] or 0:]:
            # (offsets come after the factor)
            out_u, want = Unit(alt[0]), np.array(want, float) * f * alt[1] + alt[2]
            break
        else:
            want = np.array(want, float) * f
    spec = OrderedDict()
    with W.scratch() as root:
        with Dataset(root + "/in.nc", "w") as nc:
            for d, n in sizes.items():
                nc.createDimension(d, None if d == "t" else n)
            for name, vd, dtype, units, vals, miss in c["vars"]:
                x = nc.createVariable(name, dtype, vd, fill_value=1e20 if dtype.startswith("f") else -999)
                x.units = units
                if "since" in units:
                    x.calendar = "noleap"
                x[...] = arr[name]
            for d, n in sizes.items():
                x = nc.createVariable("c_" + d, "f8", (d,))
                x.units = "1"
                x[...] = np.arange(float(n))
        for d in dims:
            if d in sizes and not (longer and d == "t"):
                spec["c_" + d] = {"datatype": "double", "dimensions": [d], "definition": "c_" + d, "attributes": {"units": "1"}}
        att = {"units": str(out_u), "_FillValue": 1e30}
        if c["units"] is None:
            # inherited
            att["units"] = "?"
        if u.is_time_reference():
            att["calendar"] = "noleap"
        spec["o"] = {"datatype": "double", "dimensions": dims, "definition": text, "attributes": att, "file": {"filename": root + "/out.nc"}}
        chunks, whole = {}, False
        if c["chunk"]:
            ds = [d for d in dims if d not in NEW.get(c["fn"], "").split()]
            d = ds[c["chunk"][0] % len(ds)]
            chunks = {d: c["chunk"][1]}
            whole = d in WHOLE.get(c["fn"], "t" if longer else "").split()
            stt.event("chunks")
        with np.errstate(all="ignore"):
            try:
                flow = DataFlow(InputDatasetDesc("in", filenames=[root + "/in.nc"]), OutputDatasetDesc("out", dsdict=spec))
                flow.execute(chunks=chunks, serial=True)
            except ValueError as err:
                if not whole:
                    raise
                stt.event("refused chunks")
                stt.nt()
                return
        got = W.read_file(root + "/out.nc")["vars"]["o"]
    what = "{} in {} (chunks {})".format(text, out_u, chunks)
    check(list(got["dims"]) == dims, "{}: dimensions {}", what, got["dims"])
    check(Unit(got["attrs"].get("units", "1"), calendar=got["attrs"].get("calendar")) == out_u, "{}: units {!r}", what, got["attrs"].get("units"))
    compare(want, wmask, got["data"], what, ROUGH.get(c["fn"], 1e-10))
    stt.event(c["fn"])
    stt.nt()


PROP = Prop(
    "C25",
    [Sub("values", cases, run_direct, quick=3000), Sub("flow", flows, run_flow, quick=1500)],
    rule="every function of the common model library (ocean means, bottom layers, layer sums, differences and masks; ice conditions and "
    "hemispheres; burnt area, land use, soil pools and vegetation; zonal means, age of air; climatologies, yearly and monthly values and "
    "their times and bounds; bounds of coordinates) with generated fields of 1-36 times, missing values, columns without sea and "
    "units: called (values, missing values, dimensions, units, what is announced, unchanged arguments), and in data flows with a factor, "
    "converted or inherited units and chunks over any dimension, compared with loops over the cells; chunks may be refused where the "
    "whole dimension is needed; non-trivial: every case",
)
