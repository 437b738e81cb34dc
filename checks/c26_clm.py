"""C26: land units and plant types of the land model become fields of the grid"""
import math

import numpy as np
from hypothesis import strategies as st

from checks import c25_library as L
from pbt.core import Prop, Sub

LUT, PFT = "CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype"
KINDS = {"grass": (12, 14), "shrub": (9, 11), "tree": (1, 8)}
WT = st.sampled_from([0.125, 0.25, 0.5, 1.0, 0.0625, 0.3])


@st.composite
def g_clm(draw):
    k = L.Case(draw, {"t": draw(st.integers(1, 2)), "y": draw(st.integers(1, 3)), "x": draw(st.integers(1, 3)), "u": 4})
    fn = draw(st.sampled_from([LUT, PFT]))
    kind = draw(st.sampled_from(["all", "veg", "crop", "urban", "pasture"] if fn == LUT else sorted(KINDS)))
    cells = [(i, j) for i in range(k.sizes["x"]) for j in range(k.sizes["y"])]
    land = [p for p in draw(st.permutations(cells)) if draw(st.integers(0, 4))] or cells[:1]
    lat = [10.0 * j - 20 for j in range(k.sizes["y"])]
    lon = [30.0 * i for i in range(k.sizes["x"])]
    units, pfts = [], []
    for i, j in land:
        for ty in (1, 2):
            # at most one of vegetation and crops that counts, others that do not
            if draw(st.booleans()):
                units.append([lon[i], lat[j], ty, 1, draw(WT)])
        for _ in range(draw(st.integers(0, 3))):
            ty = draw(st.sampled_from([7, 8, 9, 7, 8, 9, 3, 4, 5, 6, 2, 1]))
            on, w = draw(st.sampled_from([(1, None), (1, None), (0, None), (1, 0.0)]))
            if ty < 3 and on and w is None:
                on = 0
            units.append([lon[i], lat[j], ty, on, draw(WT) if w is None else w])
        for _ in range(draw(st.integers(0, 5)) if fn == PFT else 0):
            on, w = draw(st.sampled_from([(1, None), (1, None), (1, None), (0, None), (1, 0.0)]))
            pfts.append([lon[i], lat[j], draw(st.sampled_from([0, 1, 2, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16])), on, draw(WT) if w is None else w, draw(WT)])
    units = units or [[lon[0], lat[0], 4, 1, 0.5]]
    pfts = pfts or [[lon[0], lat[0], 0, 1, 0.5, 1.0]]
    units, pfts = list(draw(st.permutations(units))), list(draw(st.permutations(pfts)))
    k.sizes.update(g=len(land), l=len(units))
    if fn == PFT:
        k.sizes["p"] = len(pfts)
    u = draw(st.sampled_from(["W m-2", "K", "kg"]))
    k.var("F", "t l" if fn == LUT else "t p", u, missing=2)
    k.text(kind)
    k.coord("time", "t", L.NOLEAP)
    k.coord("lat", "y", "degrees_north", lat)
    k.coord("lon", "x", "degrees_east", lon)
    k.var("gi", "g", vals=[i + 1 for i, _ in land], dtype="i4")
    k.var("gj", "g", vals=[j + 1 for _, j in land], dtype="i4")
    k.coord("glon", "g", "degrees_east", [lon[i] for i, _ in land])
    k.coord("glat", "g", "degrees_north", [lat[j] for _, j in land])
    for n, (name, unit) in enumerate([("llon", "degrees_east"), ("llat", "degrees_north"), ("ltype", "1")]):
        k.var(name, "l", unit, vals=[x[n] for x in units], dtype="i4" if n == 2 else "f8")
    if fn == LUT:
        k.var("lact", "l", vals=[x[3] for x in units], dtype="i4")
        k.var("lwt", "l", vals=[x[4] for x in units])
        k.coord("lu", "u")
    else:
        k.var("plon", "p", "degrees_east", vals=[x[0] for x in pfts])
        k.var("plat", "p", "degrees_north", vals=[x[1] for x in pfts])
        k.var("pon", "p", vals=[x[3] for x in pfts], dtype="i4")
        k.var("ptype", "p", vals=[x[2] for x in pfts], dtype="i4")
        k.var("pwt", "p", vals=[x[4] for x in pfts])
        k.var("pwl", "p", vals=[x[5] for x in pfts])
    return k.done(fn)


def mean(F, t, parts):
    """the mean of the parts [index, weight]; None if there are none or one is missing"""
    if not parts or any(F[t][n] is None for n, _ in parts):
        return None
    return math.fsum(F[t][n] * w for n, w in parts) / math.fsum(w for _, w in parts)


def r_clm(c, a):
    s, kind = c["sizes"], c["call"][1][1]
    # (masked values become None)
    F = a["F"].tolist()
    a = {k: v.tolist() for k, v in a.items()}
    lut = c["fn"] == LUT
    out = np.ma.masked_all((s["t"], 4 if lut else 1, s["y"], s["x"]))
    for i, j, lon, lat in zip(a["gi"], a["gj"], a["glon"], a["glat"]):
        here = [n for n in range(s["l"]) if (a["llon"][n], a["llat"][n]) == (lon, lat)]
        for t in range(s["t"]):
            if lut:
                here_ = [n for n in here if a["lact"][n] == 1 and a["lwt"][n] > 0]
                for row, types in ((0, [1]), (2, [2]), (3, [7, 8, 9])):
                    v = mean(F, t, [(n, a["lwt"][n]) for n in here_ if a["ltype"][n] in types])
                    if v is not None:
                        out[t, row, j - 1, i - 1] = v
            elif any(a["ltype"][n] == 1 for n in here):
                lo, hi = KINDS[kind]
                v = mean(F, t, [(n, a["pwl"][n]) for n in range(s["p"]) if (a["plon"][n], a["plat"][n], a["pon"][n]) == (lon, lat, 1)
                                and a["pwt"][n] > 0 and lo <= a["ptype"][n] <= hi])
                if v is not None:
                    out[t, 0, j - 1, i - 1] = v
    if kind == "all":
        return "t u y x", out.data, np.ma.getmaskarray(out), "F"
    out = out[:, {"veg": 0, "pasture": 1, "crop": 2, "urban": 3}.get(kind, 0)]
    return "t y x", out.data, np.ma.getmaskarray(out), "F"


L.FUNCS.update({LUT: (g_clm, r_clm), PFT: (g_clm, r_clm)})
L.NEW[LUT] = "u"
# (weights are floats)
L.ROUGH.update({LUT: 1e-6, PFT: 1e-6})
L.MODULE.update({LUT: LUT, PFT: PFT})


@st.composite
def flows(draw):
    return L.with_flow(draw, draw(g_clm()))


PROP = Prop(
    "C26",
    [Sub("values", g_clm, L.run_direct, quick=1500), Sub("flow", flows, L.run_flow, quick=480)],
    rule="grids of up to 3 x 3 cells, some of land, listed in any order; land units (vegetation, crops, urban and others; active or not; "
    "with and without weight) and plant types (all numbers, active or not, with and without weight) in any order, missing values: "
    "fields per land use or type of vegetation, called and in data flows with factor, converted or inherited units and chunks, "
    "compared with weighted means over what lies in each cell; non-trivial: every case",
)
