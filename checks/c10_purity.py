"""C10: operations never change the arrays they are applied to"""
import operator

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt.core import Prop, Sub, check
from pbt.gen import dec_index, index_for, lengthen

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
       "//": operator.floordiv}
INP = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
       "**": lambda a, b: operator.ipow(a, b)}
UNARY = ["neg", "sqrt2", "pow3", "transpose", "convert", "index", "mean", "sum", "invert", "abs"]


@st.composite
def cases(draw):
    sizes = lengthen(draw, {d: draw(st.integers(1, 3)) for d in "xyz"})
    fam = draw(st.sampled_from(N.FAMILIES))
    pool = [draw(N.phys(sizes, units=fam)) for _ in range(draw(st.integers(2, 4)))]
    steps = []
    for k in range(draw(st.integers(1, 8))):
        n = len(pool) + k
        kind = draw(st.sampled_from(["bin", "bin", "bin", "inplace", "un", "set", "mixed", "expo"]))
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if kind == "bin":
            steps.append(["bin", draw(st.sampled_from(list(BIN))), i, j])
        elif kind == "inplace":
            steps.append(["inplace", draw(st.sampled_from(list(INP))), i, j])
        elif kind == "un":
            steps.append(["un", draw(st.sampled_from(UNARY)), i, draw(st.integers(0, 5))])
        elif kind == "expo":
            steps.append(["expo", draw(st.sampled_from(["array", "in place"])), i, draw(st.sampled_from([2, 3, 1, 2.0, 0]))])
        elif kind == "set":
            steps.append(["set", "", i, j])
        else:
            steps.append(["mixed", draw(st.sampled_from(["+", "-", "*", "/"])), i,
                          draw(st.sampled_from([2, -1, 0.5, -3.0]))])
    return {"pool": pool, "steps": steps, "fam": fam}


def unary(name, a, k, fam):
    import itertools

    if name == "neg":
        return -a
    if name == "abs":
        return abs(a)
    if name == "sqrt2":
        return a ** 2
    if name == "pow3":
        return a ** 3.0
    if name == "invert":
        return a.invert()
    if name == "transpose":
        perms = list(itertools.permutations(a.dimensions))
        return a.transpose(*perms[k % len(perms)])
    if name == "convert":
        return a.convert(fam[k % len(fam)])
    if name == "index":
        if not a.dimensions:
            return a[()]
        d = a.dimensions[k % len(a.dimensions)]
        return a[{d: slice(None, None, -1) if k % 2 else slice(0, 1)}]
    dims = [d for n, d in enumerate(a.dimensions) if (k >> n) & 1]
    return getattr(a, name)(dimensions=dims)


def run(case, stt):
    from pyconform.physarray import PhysArray

    pool = [N.build(s, "v%d" % k) for k, s in enumerate(case["pool"])]
    snaps = [N.snapshot(p) for p in pool]
    done = 0
    for kind, what, i, j in case["steps"]:
        if i >= len(pool) or (kind in ("bin", "inplace", "set") and j >= len(pool)):
            continue

        def once():
            a = pool[i]
            if kind == "bin":
                return BIN[what](a, pool[j])
            if kind == "mixed":
                return BIN[what](j, a) if isinstance(j, float) else BIN[what](a, j)
            if kind == "inplace":
                c = a.copy()
                if c.ndim == 0 and what in ("/", "//", "%"):
                    return c  # numpy's masked scalars can not be divided by zero in place
                if c.dtype.kind != "f":
                    c = c.astype("f8")
                return INP[what](c, pool[j])
            if kind == "expo":
                e = PhysArray(float(j), name="e", units="1")
                c = a.copy().astype("f8") if what == "in place" else a
                return operator.ipow(c, e) if what == "in place" else operator.pow(c, e)
            if kind == "set":
                c = a.copy().astype("f8")
                c[...] = pool[j]
                return c
            return unary(what, a, j, case["fam"])

        try:
            res = once()
        except (ValueError, TypeError, NotImplementedError) as err:
            # refused combinations (units, dimensions): nothing may have changed either
            stt.event("refused " + kind)
            res = None
        for k, (p, s) in enumerate(zip(pool, snaps)):
            now = N.snapshot(p)
            check(now == s,
                  "array v{} changed by {} {} of v{} and {}: {} became {}", k, kind, what, i, j, s, now)
        if res is None or res is np.ma.masked:
            continue
        done += 1
        snap = N.snapshot(res)
        again = N.snapshot(once())
        check(again == snap, "{} {} of v{} and {} gives different results: {} then {}",
              kind, what, i, j, snap, again)
        stt.event(kind)
        pool.append(res)
        snaps.append(snap)
    pos = [p.positive for p in pool]
    if "up" in pos and "down" in pos:
        stt.event("both directions")
    stt.nt(done >= 2)


PROP = Prop(
    "C10",
    [Sub("history", cases, run, quick=4000)],
    rule="histories of 1-8 operations (binary, with constants, in place on a copy, assignment into "
    "a copy, transpose, convert, index, reductions, powers with numbers and arrays) over a growing pool of arrays whose "
    "results become operands; after every operation all arrays of the pool are compared bit by "
    "bit (data, mask, type, units, dimensions, direction, name) with what they were; non-trivial: "
    "at least two operations carried out",
)
