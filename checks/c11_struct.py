"""C11: transposing, indexing, assigning, converting and reducing by dimension name"""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt.core import Prop, Sub, check
from pbt.gen import dec_index, dec_one, index_for, lengthen, one_slice


BAD = ["twice", "axis twice", "few axes", "no such axis", "mixed", "reduce unknown", "reduce axis", "many", "many dots",
       "two dots", "beyond", "beyond by name", "new few", "new many", "new text", "new positive", "new units", "set dims",
       "set positive", "set units"]


def impossible(p, what, k):
    """ask for something that can not be done; None if it makes no sense for this array"""
    from pyconform.physarray import PhysArray

    dims, shape, nd = p.dimensions, p.shape, p.ndim
    data, names = np.zeros(shape), tuple("n%d" % j for j in range(nd))
    j = k % nd if nd else 0
    if what == "twice" and nd > 1:
        return lambda: p.transpose(*(dims[:j] + (dims[j - 1],) + dims[j + 1:]))
    if what == "axis twice" and nd > 1:
        return lambda: p.transpose(*([x if x != j else (j + 1) % nd for x in range(nd)]))
    if what == "few axes" and nd > 1:
        return lambda: p.transpose(*range(nd - 1))
    if what == "no such axis" and nd:
        return lambda: p.transpose(*([x if x != j else nd for x in range(nd)]))
    if what == "mixed" and nd > 1:
        return lambda: p.transpose(*([0] + list(dims[1:])))
    if what == "reduce unknown":
        return lambda: [p.mean, p.sum][k % 2](dimensions=list(dims[:j]) + ["nosuchdim"])
    if what == "reduce axis" and nd:
        return lambda: [p.mean, p.sum][k % 2](axis=nd)
    if what == "many" and nd:
        return lambda: p[(0,) * nd + (0,) * (1 + k % 2)] if 0 not in shape else p[(slice(None),) * (nd + 1)]
    if what == "many dots" and nd:
        i = (slice(None),) * (nd + 1)
        return lambda: p[i[:j] + (Ellipsis,) + i[j:]]
    if what == "two dots" and nd:
        return lambda: p[..., ...]
    if what == "beyond" and nd:
        return lambda: p[(slice(None),) * j + ([shape[j], -shape[j] - 1][k % 2],)]
    if what == "beyond by name" and nd:
        return lambda: p[{dims[j]: [shape[j], -shape[j] - 1][k % 2]}]
    if what == "new few" and nd:
        return lambda: PhysArray(data, name="n", dimensions=names[:-1])
    if what == "new many":
        return lambda: PhysArray(data, name="n", dimensions=names + ("more",))
    if what == "new text" and nd:
        return lambda: PhysArray(data, name="n", dimensions="x" * nd)
    if what == "new positive":
        return lambda: PhysArray(data, name="n", dimensions=names, positive=["left", "upp", 1, "UPDOWN"][k])
    if what == "new units":
        return lambda: PhysArray(data, name="n", dimensions=names, units=["no such unit", "m m-", "m )(", "K K K q"][k])
    if what.startswith("set"):
        a, v = {"set dims": ("dimensions", [dims + ("more",), dims[:-1] if nd else ("x",), "xyzwv", 3][k]),
                "set positive": ("positive", ["left", "upp", 1, "sideways"][k]),
                "set units": ("units", ["no such unit", "m m-", "m )(", "K K K q"][k])}[what]
        return lambda: setattr(p, a, v)
    return None


@st.composite
def cases(draw):
    sizes = lengthen(draw, {d: draw(st.integers(1, 4)) for d in "wxyz"})
    fam = draw(st.sampled_from(N.FAMILIES))
    lo = draw(st.sampled_from([2, 2, 3, 0]))
    adims = draw(st.lists(st.sampled_from("wxyz"), unique=True, min_size=lo, max_size=4))
    a = draw(N.phys(sizes, dims=adims, units=fam, dtypes=("f8", "f8", "i8")))
    steps = []
    dims, shape = list(a["dims"]), list(a["shape"])
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(
            st.sampled_from(
                ["transpose", "transpose", "index", "index", "dindex", "dindex", "convert", "set",
                 "setc", "mean", "sum", "updown", "badtrans", "badset", "bad"]
            )
        )
        if kind == "transpose":
            perm = draw(st.permutations(range(len(dims))))
            form = draw(st.sampled_from(["names", "list", "axes"]))
            steps.append([kind, form, list(perm)])
            dims, shape = [dims[k] for k in perm], [shape[k] for k in perm]
        elif kind == "badtrans":
            steps.append([kind, draw(st.sampled_from(["drop", "extra"])), 0])
        elif kind == "bad":
            steps.append([kind, draw(st.sampled_from(BAD)), draw(st.integers(0, 3))])
        elif kind == "badset":
            steps.append([kind, draw(st.sampled_from(["drop", "extra", "units"])), draw(st.integers(0, 3))])
        elif kind in ("index", "dindex"):
            if kind == "index":
                idx = draw(index_for(shape))
                res = np.empty(shape)
                tags = np.broadcast_to(0, shape)
                keep = []
                parts = list(idx)
                if "..." in parts:
                    e = parts.index("...")
                    parts = parts[:e] + [[None, None, None]] * (len(shape) - len(parts) + 1) + parts[e + 1:]
                parts += [[None, None, None]] * (len(shape) - len(parts))
            else:
                idx = {}
                for d, n in zip(dims, shape):
                    if draw(st.booleans()):
                        idx[d] = draw(index_for([n], ellipsis=False, full=True))[0]
                if draw(st.integers(0, 3)) == 0:
                    idx["nosuchdim"] = [0, 1, None]
                parts = [idx.get(d, [None, None, None]) for d in dims]
            steps.append([kind, "", idx])
            nd, ns = [], []
            for d, n, p in zip(dims, shape, parts):
                if isinstance(p, list):
                    nd.append(d)
                    ns.append(len(range(*slice(*p).indices(n))))
            dims, shape = nd, ns
        elif kind == "convert":
            steps.append([kind, "", draw(st.sampled_from(fam + ["mol"]))])
        elif kind == "set":
            perm = draw(st.permutations(range(len(dims))))
            parts = [draw(one_slice(n)) for n in shape]
            sub = [len(range(*slice(*p).indices(n))) for p, n in zip(parts, shape)]
            v = draw(N.phys(dict(zip(dims, sub)), dims=[dims[k] for k in perm], units=fam,
                            dtypes=("f8",), positive=False))
            steps.append([kind, parts, v])
        elif kind == "setc":
            steps.append([kind, draw(index_for(shape)), draw(st.sampled_from([1.5, -2, 0]))])
        elif kind in ("mean", "sum"):
            sel = [k for k in range(len(dims)) if draw(st.booleans())]
            sel = list(draw(st.permutations(sel)))
            form = draw(st.sampled_from(["dims", "dims", "axis", "int", "all"]))
            if form == "int":
                if not dims:
                    form = "all"
                else:
                    sel = [draw(st.integers(0, len(dims) - 1))]
            if form == "axis" and not sel:
                form = "dims"
            if form == "all":
                sel = list(range(len(dims)))
            steps.append([kind, form, sel])
            keep = [k for k in range(len(dims)) if k not in sel]
            dims, shape = [dims[k] for k in keep], [shape[k] for k in keep]
        else:
            steps.append([kind, draw(st.sampled_from(["up", "down", "flip"])), 0])
    return {"a": a, "steps": steps}


def index_model(m, parts):
    dims = tuple(d for d, p in zip(m.dims, parts) if isinstance(p, slice))
    return m.like(m.val[tuple(parts)], m.mask[tuple(parts)], dims=dims)


def full_parts(idx, nd):
    if Ellipsis in idx:
        e = idx.index(Ellipsis)
        idx = idx[:e] + (slice(None),) * (nd - len(idx) + 1) + idx[e + 1:]
    return idx + (slice(None),) * (nd - len(idx))


def run(case, stt):
    p, m = N.build(case["a"], "a"), N.model(case["a"])
    hist = []
    effective = 0
    for kind, form, arg in case["steps"]:
        hist.append((kind, form, arg))
        if kind == "transpose":
            dims = [m.dims[k] for k in arg]
            want = m.transpose(dims)
            if form == "names":
                p = p.transpose(*dims)
            elif form == "list":
                p = p.transpose(dims)
            else:
                p = p.transpose(*arg)
            effective += dims != list(m.dims)
            m = want
        elif kind == "badtrans":
            dims = list(m.dims)[1:] if form == "drop" and m.dims else list(m.dims) + ["nosuchdim"]
            try:
                r = p.transpose(*dims)
            except ValueError:
                stt.event("refused transpose")
                continue
            check(False, "transpose of {} to {} was accepted: {!r}", m.dims, dims, r)
        elif kind == "bad":
            f = impossible(p, form, arg)
            if f is None:
                continue
            before = N.snapshot(p)
            try:
                r = f()
            except (ValueError, TypeError, IndexError):
                stt.event("refused: " + form)
                check(N.snapshot(p) == before, "{} ({}): what was refused changed the array", hist, form)
                continue
            check(False, "{} of an array of dimensions {} and shape {} was accepted: {!r}", form, m.dims, m.val.shape, r)
        elif kind == "badset":
            dims, units = list(m.dims), m.units
            if form == "drop" and dims:
                dims.pop(arg % len(dims))
            elif form == "units":
                units = "mol kg s"
            else:
                dims.append("nosuchdim")
            sizes = dict(zip(m.dims, m.val.shape), nosuchdim=1)
            from pyconform.physarray import PhysArray

            v = PhysArray(np.ones([sizes[d] for d in dims]), name="v", units=units, dimensions=dims)
            c = p.copy().astype("f8")
            before = N.snapshot(c)
            try:
                c[...] = v
            except (ValueError, TypeError):
                stt.event("refused assignment")
                check(N.snapshot(c) == before, "a refused assignment changed the array")
                continue
            check(False, "values with dimensions {} and units {} were assigned to {} {}", dims, units, m.dims, m.units)
        elif kind in ("index", "dindex"):
            if kind == "index":
                idx = dec_index(arg)
                parts = full_parts(idx, len(m.dims))
            else:
                idx = {d: dec_one(i) for d, i in arg.items()}
                parts = [idx.get(d, slice(None)) for d in m.dims]
            p = p[idx]
            m = index_model(m, parts)
            effective += 1
        elif kind == "convert":
            try:
                want = m.convert(arg)
            except N.Refuse:
                stt.event("refused conversion")
                try:
                    r = p.convert(arg)
                except ValueError:
                    continue
                check(False, "conversion of {} to {} was accepted", m.units, arg)
            p, m = p.convert(arg), want
            effective += 1
        elif kind == "set":
            parts = tuple(slice(*x) for x in form)
            v, mv = N.build(arg, "v"), N.model(arg)
            p = p.astype("f8") if p.dtype.kind != "f" else p
            before = N.snapshot(v)
            p = p.copy()
            p[parts] = v
            check(N.snapshot(v) == before, "the assigned values were changed")
            mv = mv.convert(m.units).transpose(m.dims)
            m = m.like(m.val.copy(), m.mask.copy())
            if len(m.dims) == 0:
                m.val, m.mask = mv.val.copy(), mv.mask.copy()
            else:
                m.val[parts] = mv.val
                m.mask[parts] = mv.mask
            effective += 1
        elif kind == "setc":
            idx = dec_index(form)
            p = p.astype("f8") if p.dtype.kind != "f" else p
            p = p.copy()
            p[idx] = arg
            m = m.like(m.val.copy(), m.mask.copy())
            m.val[idx] = arg
            m.mask[idx] = False
            effective += 1
        elif kind in ("mean", "sum"):
            dims = [m.dims[k] for k in arg]
            if m.val.size == 0:
                stt.event("nothing left to reduce")
                break
            if form == "dims":
                p = getattr(p, kind)(dimensions=dims)
            elif form == "axis":
                p = getattr(p, kind)(axis=tuple(arg))
            elif form == "int":
                p = getattr(p, kind)(axis=arg[0])
            else:
                p = getattr(p, kind)()
            m = N.reduce_(m, kind, dims)
            if len(arg) > 1:
                stt.event("several axes reduced")
            effective += 1
        else:
            p = p.copy()
            r = getattr(p, form)()
            check(r is p, "{}() gives the array itself", form)
            m = m.like(m.val.copy(), m.mask.copy())
            if form == "flip":
                if m.pos is not None:
                    m.val, m.pos = np.array(-m.val), "up" if m.pos == "down" else "down"
            elif m.pos is None:
                m.pos = form
            elif m.pos != form:
                m.val, m.pos = np.array(-m.val), form
            effective += 1
        msg = N.differs(p, m, rtol=1e-9, atol=1e-6)
        check(msg is None, "{} (start: {}): {}", hist, N.describe(N.model(case["a"])), msg)
        stt.event(kind)
    stt.nt(effective >= 2 and len(case["a"]["dims"]) > 1)


PROP = Prop(
    "C11",
    [Sub("history", cases, run, quick=5000)],
    rule="histories of 1-5 structural operations (transpose by names, list or axis numbers; "
    "positional and by-name indexing with integers and slices; conversion; assignment of "
    "transposed, converted or constant values; mean and sum over named dimensions, axes or all; "
    "up, down, flip) on one array, with 20 kinds of impossible requests in between, compared after each step with a model that keeps values by "
    "coordinate; non-trivial: two effective steps on an array of at least two dimensions",
    assumptions=["cf_units' conversion factors are taken as right"],
)
