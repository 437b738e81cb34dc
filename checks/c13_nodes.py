"""C13: a part of a node's data is that part of its whole data"""
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt import refeval
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

REDUCERS = ("mean", "sum", "min", "max")


def reduced_dims(t):
    out = set()
    for s in W.subtrees(t):
        if s.get("f") in REDUCERS:
            out |= {a["s"] for a in s["a"][1:]}
    return out


@st.composite
def part(draw, n, ints=True):
    """an index of one dimension of length n, JSON-able"""
    if ints and n and draw(st.integers(0, 2)) == 0:
        return draw(st.integers(-n, n - 1))
    if draw(st.integers(0, 3)) == 0:
        return [None, None, None]
    b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
    return [draw(b), draw(b), draw(st.sampled_from([None, 1, 2, -1, -2]))]


def py(i):
    return slice(*i) if isinstance(i, list) else i


@st.composite
def cases(draw):
    w = draw(W.inputs(ndims=(1, 4), maxsize=4, nvars=(1, 3)))
    t, m = draw(W.expressions(w, 2))
    if m.dims and draw(st.integers(0, 2)) == 0 and not reduced_dims(t):
        pool = ["p", "q"] + list(m.dims)
        k = draw(st.integers(1, len(m.dims)))
        new = draw(st.permutations(pool))[:k]
        dims = new + [d for d in m.dims[k:]]
        if len(set(dims)) == len(dims):
            t = W.F("chdims", t, *[W.STR(d) for d in new])
            m = refeval.chdims(m, *new)
            if draw(st.booleans()):
                t2, m2 = draw(W.expressions(w, 1, reduce=False))
                try:
                    m3 = N.binop("*", m, m2)
                    t, m = W.OP("*", t, t2), m3
                except N.Refuse:
                    pass
    w["tree"] = t
    # names on the output side; those of input dimensions may be used for others
    out = list(draw(st.permutations(list(m.dims) + ["o0", "o1", "o2", "o3", "o4", "o5", "o6"])))
    w["rename"] = [[d, o] for d, o in zip(m.dims, out)]
    w["order"] = list(draw(st.permutations(range(len(m.dims)))))
    w["positive"] = draw(st.sampled_from([None, "up", "down"]))
    w["typ"] = draw(st.sampled_from(["double", "float"]))
    w["all"] = draw(st.lists(st.sampled_from(["none", "slice", "dots", "names", "tuple"]), max_size=4))
    w["index"] = []
    for _ in range(4):
        w["index"].append([draw(part(4)) for _ in range(6)])
    w["drop"] = [draw(st.integers(0, 63)) for _ in range(4)]
    w["form"] = [draw(st.integers(0, 3)) for _ in range(4)]
    return w


def build(t, desc):
    """the graph of a tree, like DataFlow does it"""
    from pyconform import functions
    from pyconform.flownodes import EvalNode, ReadNode

    if "n" in t:
        return t["n"]
    if "s" in t:
        return t["s"]
    if "v" in t:
        v = desc.variables[t["v"]]
        if not t["i"]:
            return ReadNode(v)
        return ReadNode(v, tuple(refeval.idx_of(i) for i in t["i"]))
    args = [build(a, desc) for a in t["a"]]
    if "f" in t:
        return EvalNode(t["f"], functions.find(t["f"]), *args, **{k: build(a, desc) for k, a in t["k"]})
    return EvalNode(t["o"], functions.find(t["o"], len(args)), *args)


def compare(got, want, what):
    """two PhysArrays: data, mask, dimensions, units, direction"""
    check(tuple(got.dimensions) == tuple(want.dimensions), "{}: dimensions {} instead of {}", what,
          got.dimensions, want.dimensions)
    check(tuple(got.shape) == tuple(want.shape), "{}: shape {} instead of {}", what, got.shape, want.shape)
    check(got.units == want.units and got.units.calendar == want.units.calendar,
          "{}: units {} instead of {}", what, got.units, want.units)
    check(got.positive == want.positive, "{}: positive {} instead of {}", what, got.positive, want.positive)
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    check(np.array_equal(gm, wm), "{}: missing {} instead of {}", what, gm.tolist(), wm.tolist())
    gv, wv = np.ma.getdata(got).astype(float), np.ma.getdata(want).astype(float)
    with np.errstate(all="ignore"):
        ok = (gv == wv) | gm | (np.abs(gv - wv) <= 1e-12 * np.abs(wv)) | ((gv != gv) & (wv != wv))
    check(bool(ok.all()), "{}: values {} instead of {}", what, np.ma.array(gv, mask=gm).tolist(),
          np.ma.array(wv, mask=wm).tolist())


def freeze(x):
    """an array of its own"""
    from pyconform.physarray import PhysArray

    return PhysArray(np.ma.array(np.ma.getdata(x).copy(), mask=np.ma.getmaskarray(x).copy()), units=x.units,
                     dimensions=x.dimensions, positive=x.positive, name="whole")


def take(x, index):
    """part of a whole array, by named index"""
    from pyconform.physarray import PhysArray

    sel = tuple(index.get(d, slice(None)) for d in x.dimensions)
    dims = tuple(d for d, i in zip(x.dimensions, sel) if isinstance(i, slice))
    v = np.ma.getdata(x)[sel]
    return PhysArray(np.ma.array(v, mask=np.ma.getmaskarray(x)[sel]), units=x.units, dimensions=dims,
                     positive=x.positive, name="part")


def judge(node, w, fixed, ints, positional, what, stt, foreign=()):
    from pyconform.physarray import PhysArray

    whole = freeze(node[...] if positional else node[{}])
    # all ways to ask for everything are the same, with requests for nothing in between
    for form in w["all"]:
        got = node[{"none": None, "slice": slice(None), "dots": Ellipsis, "names": {}, "tuple": ()}[form]]
        if form == "none":
            continue
        if not isinstance(got, PhysArray):
            got = PhysArray(got, dimensions=())
        compare(got, whole, "{}[{}] of shape {}".format(what, form, whole.shape))
    for idx, drop, form in zip(w["index"], w["drop"], w["form"]):
        named = {}
        for k, (d, n) in enumerate(zip(whole.dimensions, whole.shape)):
            i = idx[k]
            if d in fixed or drop & (1 << k):
                continue
            if isinstance(i, int):
                if not ints or n == 0:
                    continue
                i = i % n if i >= 0 else -1 - ((-1 - i) % n)
            named[d] = py(i)
        if positional and form < 2:
            if not whole.dimensions:
                index = Ellipsis
            else:
                index = tuple(named.get(d, slice(None)) for d in whole.dimensions)
                if form == 1:
                    while len(index) > 1 and index[-1] == slice(None):
                        index = index[:-1]
                    if len(index) == 1:
                        index = index[0]
        else:
            index = dict(named)
            if form == 3:
                index["not there"] = slice(0, 0)
                for d in foreign:
                    if d not in whole.dimensions:
                        index[d] = slice(0, 1)
        w_ = "{}[{}] of shape {} {}".format(what, index, whole.shape, whole.dimensions)
        got = node[index]
        if not isinstance(got, PhysArray):
            got = PhysArray(got, dimensions=())
        compare(got, take(whole, named), w_)
        if named and whole.size > 1:
            stt.nt()
    info = node[None]
    check(info.size == 0 or info.shape == (), "{}[None] holds data {}", what, info)
    check(tuple(info.dimensions) == tuple(whole.dimensions), "{}[None]: dimensions {} instead of {}",
          what, info.dimensions, whole.dimensions)
    check(info.units == whole.units and info.units.calendar == whole.units.calendar,
          "{}[None]: units {} instead of {}", what, info.units, whole.units)
    check(info.positive == whole.positive, "{}[None]: positive {} instead of {}", what, info.positive,
          whole.positive)
    # the node gives the same again after all of that
    compare(freeze(node[...] if positional else node[{}]), whole, what + " read again")
    return whole


def run(w, stt):
    from pyconform.datasets import DimensionDesc, InputDatasetDesc, VariableDesc
    from pyconform.flownodes import DataNode, EvalNode, FlowNode, MapNode, ReadNode, ValidateNode

    t = w["tree"]
    env = W.env_of(w)
    try:
        m = refeval.evaluate(t, env)
    except N.Refuse:
        raise Discard("refused")
    text = W.render(t)
    with W.scratch() as root:
        desc = InputDatasetDesc("inp", filenames=W.write_inputs(w, root))
        top = build(t, desc)
        if not isinstance(top, FlowNode):
            raise Discard("constant")
        # every node of the graph
        seen, todo = [], [top]
        while todo:
            n = todo.pop()
            if any(n is s for s in seen):
                continue
            seen.append(n)
            todo += [i for i in n.inputs if isinstance(i, FlowNode)]
        for n in seen:
            fixed = reduced_dims(t) if isinstance(n, EvalNode) else set()
            pos = isinstance(n, ReadNode)
            stt.event("read" if pos else "eval")
            judge(n, w, fixed, True, pos, "{} in {}".format(n.label, text), stt)
        whole = freeze(top[{}])
        if whole.dimensions:
            judge(DataNode(whole), w, set(), True, True, "data of shape {}".format(whole.shape), stt)
        dmap = dict(w["rename"])
        mp = MapNode("map", top, dmap)
        got = judge(mp, w, {dmap[d] for d in reduced_dims(t) if d in dmap}, True, True, "map {} of {}".format(dmap, text), stt,
                    sorted(dmap))
        check(got.dimensions == tuple(dmap.get(d, d) for d in whole.dimensions), "map {} of {}: {}",
              dmap, whole.dimensions, got.dimensions)
        od = [got.dimensions[k] for k in w["order"]]
        vd = VariableDesc("v", datatype=w["typ"], dimensions=tuple(
            DimensionDesc(d, size=got.shape[got.dimensions.index(d)]) for d in od),
            attributes={k: v for k, v in (("positive", w["positive"]),) if v})
        va = ValidateNode(vd, mp)
        fixed = {dmap[d] for d in reduced_dims(t) if d in dmap}
        res = judge(va, w, fixed, False, False, "validated {} ({})".format(text, vd.attributes), stt,
                    sorted(dmap))
        check(list(res.dimensions) == od, "validated {}: dimensions {} instead of {}", text,
              res.dimensions, od)


PROP = Prop(
    "C13",
    [Sub("nodes", cases, run, quick=900)],
    rule="graphs of definitions of depth up to 3 (read, indexed read, operators, functions, chdims) "
    "mapped to permuted, reused or new dimension names and validated with permuted dimensions, type "
    "and direction; every node of the graph is asked for 4 parts by name (and by position where the "
    "positions are defined) with integers, negative and stepped slices, ellipses, shorter tuples and "
    "foreign names, for no data, and for everything in each of the forms that this has; compared with the same part of the whole; non-trivial: a part of "
    "an array of more than one element",
)
