"""
Reference evaluation of definitions (encoding of refparser) on named arrays (named.NA).
"""
import numpy as np
from cf_units import Unit

from pbt.named import NA, Refuse, binop, power, reduce_


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def as_na(x):
    return x if isinstance(x, NA) else NA((), x)


def idx_of(i):
    """index AST (numbers and slices of numbers) -> python index"""
    if "sl" in i:
        return slice(*[None if p is None else p["n"] for p in i["sl"]])
    return i["n"]


def apply_index(m, idx):
    parts = [idx_of(i) for i in idx]
    parts += [slice(None)] * (len(m.dims) - len(parts))
    dims = tuple(d for d, p in zip(m.dims, parts) if isinstance(p, slice))
    return m.like(m.val[tuple(parts)], m.mask[tuple(parts)], dims=dims)


def split_ref(u):
    s = str(u)
    if u.is_time_reference():
        a, b = s.split("since")
        return a.strip(), b.strip()
    return s, None


def chunits(x, units=None, refdate=None, calendar=None):
    """a new unit, reference date and/or calendar without touching the values"""
    xu, xr = split_ref(x.units)
    if units is None:
        unit, ref, cal = xu, xr, x.units.calendar
    else:
        u = Unit(units)
        unit, ref = split_ref(u)
        cal = u.calendar
        ref = xr if ref is None else ref
        cal = x.units.calendar if cal is None else cal
    ref = ref if refdate is None else refdate
    cal = cal if calendar is None else calendar
    new = Unit(unit if ref is None else "{} since {}".format(unit, ref), calendar=cal)
    return x.like(x.val, units=new)


def limit(x, below=None, above=None):
    v = x.val.copy()
    if above is not None:
        v = np.where(v > above, above, v)
    if below is not None:
        v = np.where(v < below, below, v)
    return x.like(v)


def direction(x, which):
    x = as_na(x)
    if x.pos is None or x.pos == which:
        return x.like(x.val, pos=which)
    return x.like(-x.val, pos=which)


def sqrt(x):
    try:
        units = x.units.root(2)
    except ValueError:
        raise Refuse("root of units")
    bad = x.val < 0
    return x.like(np.sqrt(np.where(bad, 0, x.val)), x.mask | bad, units=units)


def chdims(x, *dims):
    new = list(dims[: len(x.dims)]) + list(x.dims[len(dims):])
    return x.like(x.val, dims=new)


def call(name, args, kw):
    if name == "sqrt":
        return sqrt(*args) if isinstance(args[0], NA) else float(np.sqrt(args[0]))
    if name in ("mean", "sum", "min", "max"):
        x = args[0]
        return reduce_(x, name, [d for d in args[1:] if d in x.dims])
    if name in ("up", "down"):
        return direction(args[0], name)
    if name == "chunits":
        return chunits(*args, **kw)
    if name == "limit":
        return limit(*args, **kw)
    if name == "rmunits":
        x = args[0]
        return x.like(x.val, units="1")
    if name == "chdims":
        return chdims(*args)
    raise KeyError(name)


def evaluate(t, env):
    """value of an expression: NA, number or string"""
    if "n" in t:
        return t["n"]
    if "s" in t:
        return t["s"]
    if "v" in t:
        return apply_index(env[t["v"]], t["i"]) if t["i"] else env[t["v"]]
    if "f" in t:
        args = [evaluate(a, env) for a in t["a"]]
        kw = {k: evaluate(a, env) for k, a in t["k"]}
        return call(t["f"], args, kw)
    args = [evaluate(a, env) for a in t["a"]]
    if len(args) == 1:
        return -args[0] if isnum(args[0]) else args[0].neg()
    op = t["o"]
    if all(isnum(a) for a in args):
        a, b = args
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                "/": lambda: a / b, "**": lambda: a ** b}[op]()
    if op == "**":
        return power(args[0], args[1])
    return binop(op, as_na(args[0]), as_na(args[1]))
