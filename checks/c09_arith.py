"""C09: arithmetic on arrays with named dimensions, units, masks and positive directions"""
import operator

from hypothesis import strategies as st

from pbt import named as N
from pbt.core import Discard, Prop, Sub, check
from pbt.gen import lengthen

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
       "//": operator.floordiv}
INP = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
       "//": operator.ifloordiv}


@st.composite
def sizes_(draw):
    return lengthen(draw, {d: draw(st.integers(1, 4)) for d in "wxyz"})


@st.composite
def cases(draw):
    sizes = draw(sizes_())
    op = draw(st.sampled_from(["+", "+", "+", "-", "-", "*", "/", "//"]))
    fam = draw(st.sampled_from(N.FAMILIES))
    ua, ub = fam, fam
    if op in "*/" and draw(st.booleans()):
        ub = N.ALLUNITS
    elif draw(st.integers(0, 11)) == 0:
        ub = N.ALLUNITS
    a = draw(N.phys(sizes, units=ua))
    kind = draw(st.integers(0, 9))
    if kind == 0:
        b = draw(st.sampled_from([2, -1, 0.5, 0, 3.0, -2.5]))
        if op in "+-":
            a["units"] = draw(st.sampled_from(["1", "1", "%"]))
    else:
        sz = dict(sizes)
        if draw(st.integers(0, 19)) == 0:
            sz["x"] = sizes["x"] + 1
        b = draw(N.phys(sz, units=ub))
    return {"op": op, "a": a, "b": b, "swap": draw(st.booleans()),
            "chain": draw(st.booleans())}


def tol(op, specs, models):
    """rounding allowed: relative to the operands of a sum, not to its result"""
    import numpy as np

    eps = 2e-6 if any(isinstance(s, dict) and s["dtype"] == "f4" for s in specs) else 1e-12
    scale = 1e3
    if op in "+-":
        for m in models:
            v = m.convert(models[0].units).val
            scale = max(scale, float(np.abs(v).max()))
    return dict(rtol=20 * eps, atol=eps * scale)


def operand(x, name):
    if isinstance(x, dict):
        return N.build(x, name), N.model(x)
    return x, N.NA((), x)


def near_integer_quotient(ma, mb):
    """floor division next to an integer quotient is not decided by rounding"""
    try:
        q = N.binop("/", ma, mb)
    except N.Refuse:
        return False
    import numpy as np

    v = q.val[~q.mask]
    return v.size and bool((np.abs(v - np.round(v)) < 1e-6).any())


def run(case, stt):
    a, ma = operand(case["a"], "a")
    b, mb = operand(case["b"], "b")
    if case["swap"] and not isinstance(case["b"], dict):
        a, b, ma, mb = b, a, mb, ma
    op = case["op"]
    if op == "//" and near_integer_quotient(ma, mb) and not (
        all(isinstance(s, dict) and s["dtype"] == "i8" for s in (case["a"], case["b"]))
    ):
        stt.event("skipped: quotient next to an integer")
        return
    try:
        want = N.binop(op, ma, mb)
    except N.Refuse as r:
        stt.event("refused:" + str(r))
        try:
            got = BIN[op](a, b)
        except ValueError:
            stt.nt()
            return
        check(False, "{} {} {} must be refused ({}), gave {!r}", ma.__dict__, op, mb.__dict__, r, got)
    got = BIN[op](a, b)
    t = tol(op, (case["a"], case["b"]), (ma, mb))
    msg = N.differs(got, want, **t)
    check(msg is None, "({}) {} ({}): {}", N.describe(ma), op, N.describe(mb), msg)
    if ma.dims != mb.dims:
        stt.event("broadcast or transposed")
    if set(ma.dims) == set(mb.dims) and ma.dims != mb.dims:
        stt.event("transposed")
    if ma.units != mb.units:
        stt.event("different units")
    if ma.pos and mb.pos and ma.pos != mb.pos:
        stt.event("opposite positive")
    if ma.mask.any() or mb.mask.any():
        stt.event("masked")
    stt.nt(ma.dims != mb.dims or ma.units != mb.units or ma.pos != mb.pos)
    if case["chain"] and isinstance(case["b"], dict):
        # the result is an operand like any other
        try:
            want2 = N.binop("-", want, mb) if op in "+-" else N.binop("*", want, mb)
        except N.Refuse:
            return
        got2 = got - b if op in "+-" else got * b
        t["atol"] *= 10
        msg = N.differs(got2, want2, **t)
        check(msg is None, "second operation on the result of {}: {}", op, msg)


@st.composite
def inplace_cases(draw):
    sizes = draw(sizes_())
    op = draw(st.sampled_from(["+", "-", "*", "/"]))
    fam = draw(st.sampled_from(N.FAMILIES))
    a = draw(N.phys(sizes, units=fam, dtypes=("f8", "f8", "f4")))
    sub = draw(st.lists(st.sampled_from(a["dims"]), unique=True)) if a["dims"] else []
    if draw(st.integers(0, 9)) == 0:
        b = draw(N.phys(sizes, units=fam, dtypes=("f8",)))
    else:
        b = draw(N.phys(sizes, dims=sub, units=fam if op in "+-" else N.ALLUNITS,
                        dtypes=("f8", "i8")))
    return {"op": op, "a": a, "b": b}


def run_inplace(case, stt):
    a, ma = operand(case["a"], "a")
    b, mb = operand(case["b"], "b")
    op = case["op"]
    extra = [d for d in mb.dims if d not in ma.dims]
    try:
        want = N.binop(op, ma, mb)
        if any(mb.sizes[d] > 1 for d in extra):
            raise N.Refuse("dimensions")
    except N.Refuse as r:
        stt.event("refused:" + str(r))
        try:
            INP[op](a, b)
        except ValueError:
            stt.nt()
            return
        check(False, "in-place {} must be refused: {}", op, r)
    got = INP[op](a, b)
    check(got is a, "in-place {} gave another object", op)
    msg = N.differs(got, want, **tol(op, (case["a"], case["b"]), (ma, mb)))
    check(msg is None, "({}) {}= ({}): {}", N.describe(ma), op, N.describe(mb), msg)
    stt.nt(ma.dims != mb.dims or ma.units != mb.units)


@st.composite
def power_cases(draw):
    sizes = draw(sizes_())
    e = draw(st.sampled_from([0, 1, 2, 3, -1, -2, 2.0, 3.0, 0.5]))
    a = draw(N.phys(sizes, dtypes=("f8",) if e < 0 or isinstance(e, float) else ("f8", "i8"),
                    units=["m2", "cm2", "1", "W2 m-4"] if e == 0.5 else ["m", "1", "K", "W m-2", "s-1"]))
    form = draw(st.sampled_from(["plain", "phys", "inplace", "neg", "bad", "reverse"]))
    pct = draw(st.booleans())
    if form == "inplace" and pct:
        a["dtype"] = "f8"  # (in place, the array keeps its type)
    return {"a": a, "e": e, "form": form, "pct": pct,
            "bad": draw(st.sampled_from(["units", "dims", "one", "positive"]))}


def run_power(case, stt):
    from pyconform.physarray import PhysArray

    a, ma = operand(case["a"], "a")
    e = case["e"]
    if case["form"] == "neg":
        msg = N.differs(-a, ma.neg(), **tol("*", (case["a"],), (ma,)))
        check(msg is None, "-({}): {}", N.describe(ma), msg)
        stt.nt(bool(ma.dims))
        return
    if case["form"] == "bad":
        x = {"units": PhysArray(float(e), name="e", units="m"),
             "dims": PhysArray([float(e), 2.0], name="e", units="1", dimensions=("x",)),
             "one": PhysArray([float(e)], name="e", units="1", dimensions=("w",)),
             "positive": PhysArray(float(e), name="e", units="1", positive="up")}[case["bad"]]
        for what, op in (("**", lambda: a ** x), ("**=", lambda: operator.ipow(a, x))):
            try:
                got = op()
            except ValueError:
                stt.event("refused exponent")
                stt.nt()
                continue
            check(False, "{} {!r} must be refused, gave {!r}", what, x, got)
        msg = N.differs(a, ma, **tol("*", (case["a"],), (ma,)))
        check(msg is None, "a refused exponent changed the array: {}", msg)
        return
    if case["form"] == "reverse":
        x = PhysArray(float(e) * 100 if case["pct"] else e, name="e", units="%" if case["pct"] else "1")
        for base in (2.0, 3.0 if e < 0 else 3, 0.5):
            got = base ** x
            check(got.dimensions == () and got.units == PhysArray(1).units and got.positive is None
                  and abs(float(got) - float(base) ** e) < 1e-9, "{} ** {!r} gave {!r}", base, x, got)
        stt.nt()
        return
    want = N.power(ma, e)
    ex = e
    if case["form"] != "plain":
        # a scalar exponent with a dimensionless unit is converted to a pure number
        ex = PhysArray(float(e) if case["pct"] else e, name="e", units="1")
        if case["pct"]:
            ex = PhysArray(float(e) * 100.0, name="e", units="%")
    if case["form"] == "inplace":
        got = a
        got **= ex
    else:
        got = a ** ex
    msg = N.differs(got, want, **tol("*", (case["a"],), (ma,)))
    check(msg is None, "({}) ** {}: {}", N.describe(ma), e, msg)
    stt.nt(e not in (0, 1) and bool(ma.dims))
    if want.mask.sum() > ma.mask.sum():
        stt.event("undefined power masked")


UNIT_DAYS = {"days": 1.0, "hours": 1 / 24.0, "seconds": 1 / 86400.0, "minutes": 1 / 1440.0}
CALS = ["standard", "noleap", "all_leap", "360_day", "julian", "proleptic_gregorian"]


@st.composite
def time_cases(draw):
    sizes = draw(sizes_())
    ops = []
    cal = draw(st.sampled_from(CALS))
    for _ in range(2):
        p = draw(N.phys(sizes, units=["1"], dtypes=("f8", "f8", "i8"), positive=False))
        ref = "%04d-%02d-%02d" % (draw(st.integers(1850, 2100)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
        p["units"] = draw(st.sampled_from(sorted(UNIT_DAYS)))
        ops.append({"p": p, "ref": ref, "cal": cal})
    odd = draw(st.integers(0, 5))
    if odd == 0:
        ops[1]["cal"] = draw(st.sampled_from([c for c in CALS if c != cal]))
    elif odd == 1:
        ops[draw(st.integers(0, 1))]["ref"] = None  # a duration
    elif odd == 2:
        ops[1]["ref"], ops[1]["p"]["units"] = ops[0]["ref"], ops[0]["p"]["units"]
    return {"ops": ops, "op": draw(st.sampled_from(["+", "-", "-"])), "inplace": draw(st.booleans())}


def run_times(case, stt):
    import cftime
    import numpy as np
    from cf_units import Unit

    a, b = case["ops"]
    arr, mod = [], []
    for o in (a, b):
        p = dict(o["p"])
        u = p["units"] + (" since " + o["ref"] if o["ref"] else "")
        p["units"] = Unit(u, calendar=o["cal"]) if o["ref"] else u
        if case["inplace"] and o is a:
            p["dtype"] = "f8"
            p["data"] = [float(x) for x in p["data"]]
        arr.append(N.build(p, "t"))
        p["units"] = "1"
        mod.append(N.model(p))
    keep = arr[0].units
    refused = (a["ref"] is None) != (b["ref"] is None) or bool(a["ref"] and a["cal"] != b["cal"])
    ops = INP if case["inplace"] else BIN
    if case["inplace"] and any(d not in mod[0].dims and mod[1].sizes[d] > 1 for d in mod[1].dims):
        refused = True
    what = "{} {} {}".format(arr[0].units, case["op"], arr[1].units)
    if refused:
        try:
            got = ops[case["op"]](*arr)
        except ValueError:
            stt.event("refused")
            stt.nt()
            return
        check(False, "{} (calendars {}, {}) must be refused, gave {!r}", what, a["cal"], b["cal"], got)
    shift = 0.0
    if a["ref"]:
        at = [cftime.datetime(*[int(x) for x in o["ref"].split("-")], calendar=o["cal"]) for o in (a, b)]
        shift = float((at[1] - at[0]).days)
    ua, ub = UNIT_DAYS[a["p"]["units"]], UNIT_DAYS[b["p"]["units"]]
    mb = N.NA(mod[1].dims, (mod[1].val * ub + shift) / ua, mod[1].mask, "1")
    want = N.binop(case["op"], mod[0], mb)
    got = ops[case["op"]](*arr)
    scale = max(1.0, float(np.abs(mb.val).max()), float(np.abs(mod[0].val).max()))
    # udunits rounds dates to the millisecond or so
    msg = N.differs(got, want, units=False, rtol=1e-9, atol=1e-9 * scale + 2e-3 / 86400.0 / ua)
    check(msg is None, "{} ({}): {}", what, a["cal"], msg)
    check(got.units == keep and got.units.calendar == keep.calendar, "{}: units {!r} instead of {!r}", what,
          got.units, keep)
    stt.nt(a["ref"] != b["ref"] or a["p"]["units"] != b["p"]["units"])
    stt.event("times" if a["ref"] else "durations")


PROP = Prop(
    "C09",
    [
        Sub("binary", cases, run, quick=6000),
        Sub("inplace", inplace_cases, run_inplace, quick=2000),
        Sub("power", power_cases, run_power, quick=1500),
        Sub("times", time_cases, run_times, quick=1000),
    ],
    rule="pairs of arrays over dimensions w,x,y,z (0-3 of them in any order, sizes 1-4, C and "
    "transposed memory, f8/f4/i8, masks, 24 units of 8 families, positive up/down/none) or a "
    "constant, combined with + - * / // and **, also in place and chained; compared with a model "
    "that works coordinate by coordinate; times with different references, units and calendars added and subtracted against "
    "calendar arithmetic of cftime; non-trivial: dimensions, units or positive differ, or "
    "the operation has to be refused",
    assumptions=["cf_units' conversion factors and unit algebra are taken as right"],
)
