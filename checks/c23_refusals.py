"""C23: executions that can not be done as asked are refused, before a file is there"""
import os
import warnings
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from checks import c02_chunks
from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check


def known(w):
    return {x for n in W.own_files(w) for x in W.file_vars(w, n, True)}


def mapped(w):
    """output dimensions that are mapped to input dimensions, by variables that are in a file"""
    there = known(w)
    return {d for o in w["outvars"] if "tree" in o and o["name"] in there for d in o["dims"]}


def reduced(w):
    """output dimensions that some definition in a file reduces over"""
    there = known(w)
    return c02_chunks.reduced(dict(w, outvars=[o for o in w["outvars"] if o["name"] in there]))


BAD_SIZES = [0, -1, -5, 1.5, "2", None, [1]]


@st.composite
def cases(draw, only=None):
    nd = draw(st.sampled_from([(2, 3), (3, 3), (2 if only else 1, 3)]))
    w = draw(W.inputs(maxsize=4, ndims=nd))
    full = only or draw(st.sampled_from([True, True, False]))
    if full:
        n = int(np.prod([n for _, n, _ in w["dims"]]))
        w["invars"].append({"name": "full", "dims": [d for d, _, _ in w["dims"]], "dtype": "f8", "mask": None,
                            "data": [float((k * 7) % 23) for k in range(n)], "units": "m", "pos": None, "cal": None,
                            "fam": "length", "files": [0]})
    w = draw(W.outputs(w, directions=True, nvars=(1, 3), coordless=not only and draw(st.booleans())))
    sizes = {w["dmap"][d]: n for d, n, _ in w["dims"]}
    # a reduction that the chunks can hit: hidden deep in a definition, or in another file
    if only or draw(st.sampled_from([True, True, True, False])):
        cands = [v for v in w["invars"] if v["dims"] and not v.get("coord")]
        cands = [v for v in cands if len(v["dims"]) > 2] or [v for v in cands if len(v["dims"]) > 1] or cands
        if cands:
            v = draw(st.sampled_from(cands))
            m = W.in_model(v, w)
            d = draw(st.sampled_from(m.dims))
            fn = draw(st.sampled_from(["mean", "sum", "min", "max"]))
            wrap = draw(st.sampled_from(["opmany", "many", "nest", "opmany", "nestop"] if only else ["plain", "fun", "op", "neg", "limit", "nest", "nestop", "many", "many"]))
            gone = [d]
            t = W.F(fn, W.V(v["name"]), W.STR(d))
            others = [x for x in m.dims if x != d]
            if wrap == "nest" and others:
                # the same function again, around
                gone.append(draw(st.sampled_from(others)))
                t = W.F(fn, t, W.STR(gone[1]))
            elif wrap == "many" and others:
                gone += draw(st.permutations(others))
                t = W.F(fn, W.V(v["name"]), *[W.STR(x) for x in gone])
            elif wrap == "opmany":
                gone += draw(st.permutations(others))[: draw(st.integers(0, 2))]
                t = W.OP("-", W.V(v["name"]), W.F(fn, W.V(v["name"]), *[W.STR(x) for x in gone]))
            elif wrap == "nestop":
                t = W.OP("+", W.V(v["name"]), W.OP("+", W.V(v["name"]), t))
            if wrap == "fun":
                t = W.F("rmunits", t)
            elif wrap == "op":
                t = W.OP("-", W.V(v["name"]), t)
            elif wrap == "neg":
                t = W.OP("-", t)
            elif wrap == "limit":
                t = W.F("limit", t, above=W.NUM(1e9))
            dims = m.dims if wrap in ("op", "nestop", "opmany") else [x for x in m.dims if x not in gone]
            w["outvars"].append({"name": "red", "dims": [w["dmap"][x] for x in dims], "datatype": "double",
                                 "attrs": {}, "tree": t, "file": {"filename": "red.nc"}})
    ok = sorted(d for d in mapped(w) if d in sizes)
    red = sorted(d for d in reduced(w) & mapped(w) if d in sizes)
    good = [[d, draw(st.integers(1, sizes[d]))] for d in ok if d not in red and draw(st.booleans())]
    kinds = ["unknown", "type"] + (["size"] * 2 if ok else []) + (["sumlike"] * 8 if red else []) + ["deflate"]
    k = only if only and red else draw(st.sampled_from(kinds))
    w["bad"] = k
    bad = []
    if k == "unknown":
        inp = [d for d, _, _ in w["dims"] if d not in w["dmap"].values()]
        bad = [[draw(st.sampled_from(["nosuchdim", "Time"] + inp)), draw(st.integers(1, 3))]]
    elif k == "size":
        d = draw(st.sampled_from(ok))
        good = [g for g in good if g[0] != d]
        bad = [[d, draw(st.sampled_from(BAD_SIZES))]]
    elif k == "sumlike":
        ds = list(draw(st.permutations(red)))[: draw(st.sampled_from([1, 3] if only else [1, 1, 2, 3]))]
        bad = [[d, draw(st.integers(1, sizes[d] + 1))] for d in ds]
    w["exec"]["chunks"] = list(draw(st.permutations(good + bad)))
    w["chunkarg"] = draw(st.sampled_from(["list", "number", "string"]))
    w["exec"]["deflate"] = draw(st.sampled_from([-1, 10, 1.5, "3"])) if k == "deflate" else None
    w["earlier"] = draw(st.booleans())
    return w


def run(w, stt):
    env = W.env_of(w)
    try:
        for o in w["outvars"]:
            W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused anyway")
    k = w["bad"]
    with W.scratch() as root:
        W.write_inputs(w, root)
        before = set(os.listdir(root))
        flow = W.make_flow(w, root)
        args = dict(chunks=OrderedDict((d, n) for d, n in w["exec"]["chunks"]), serial=True)
        if k == "type":
            args["chunks"] = {"list": [list(x) for x in w["exec"]["chunks"]], "number": 3, "string": "lat,2"}[w["chunkarg"]]
        if k == "deflate":
            args["deflate"] = w["exec"]["deflate"]
        what = "{} {}".format({k: v for k, v in args.items() if k != "serial"}, [
            (o["name"], o["dims"], W.render(o["tree"]) if "tree" in o else o["data"]) for o in w["outvars"]])
        old = {}
        if w["earlier"]:
            # the flow was executed as it can be before
            W.execute(w, root, flow=flow, chunks=OrderedDict(), deflate=None)
            old = {f: open(os.path.join(root, f), "rb").read() for f in W.own_files(w).values()}
            stt.event("after an execution")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                flow.execute(**args)
        except Exception:
            pass
        else:
            check(False, "executed with {}", what)
        stt.event("refused: " + k)
        if k == "sumlike":
            stt.event("reduced dimensions: %d" % len([d for d, _ in w["exec"]["chunks"] if d in reduced(w)]))
        stt.nt()
        there = set(os.listdir(root)) - before
        for f in W.own_files(w).values():
            if f in old:
                check(open(os.path.join(root, f), "rb").read() == old[f],
                      "file {} was changed by a refused execution with {}", f, what)
            else:
                check(f not in there, "file {} was written by a refused execution with {}", f, what)
        if k != "deflate":
            check(there == set(old), "a refused execution with {} left {}", what, sorted(there))
        if k == "sumlike":
            # the debugging option ignores these chunks
            flow.execute(debug=True, **dict(args, chunks=OrderedDict(args["chunks"])))
            W.verify_files(w, root, stt, env)
            stt.event("ignored with debug")
        else:
            W.execute(w, root, flow=flow, chunks=OrderedDict(), deflate=None)
            W.verify_files(w, root, stt, env)


@st.composite
def specs(draw):
    w = draw(W.worlds(inp={"maxsize": 3, "ndims": (1, 3)}, out={"nvars": (1, 3), "datavars": False}))
    cands = [k for k, o in enumerate(w["outvars"]) if o["file"] and "tree" in o]
    k = draw(st.sampled_from(cands))
    o = w["outvars"][k]
    t = W.render(o["tree"], w["extra"])
    there = [w["dmap"][d] for d, _, _ in w["dims"]]
    kinds = ["function", "operator", "arguments", "keyword", "extra"] + (["drop"] if o["dims"] else []) + (
        ["size"] * 2 if [x for x in w["outvars"] if len(x["dims"]) == 1 and "axis" in x["attrs"]] else [])
    kind = draw(st.sampled_from(kinds))
    if kind == "function":
        t = draw(st.sampled_from(["nosuchfunction({})", "Mean({})", "1 + avg({}, \"t\")"])).format(t)
    elif kind == "operator":
        t = "({}) {} 2".format(t, draw(st.sampled_from(["%", "//", "&", "==="])))
    elif kind == "arguments":
        t = draw(st.sampled_from(["sqrt({0}, {0})", "rmunits()", "up({0}, {0})", "limit({0}, 1, 2, 3, 4)", "mean()"])).format(t)
    elif kind == "keyword":
        t = draw(st.sampled_from(["limit({}, abve=1)", "chunits({}, unit='m')", "sqrt({}, x=1)", "mean({}, dims='t')"])).format(t)
    elif kind == "extra":
        new = [d for d in there if d not in o["dims"]] + ["another"]
        o["dims"] = o["dims"] + [draw(st.sampled_from(new))]
    elif kind == "drop":
        gone = draw(st.sampled_from(o["dims"]))
        o["dims"] = [d for d in o["dims"] if d != gone]
    elif kind == "size":
        x = draw(st.sampled_from([x for x in w["outvars"] if len(x["dims"]) == 1 and "axis" in x["attrs"]]))
        sizes = {w["dmap"][d]: n for d, n, _ in w["dims"]}
        n = draw(st.integers(1, 5).filter(lambda q: q != sizes[x["dims"][0]]))
        w["outvars"].append({"name": "wrong", "dims": list(x["dims"]), "datatype": "double", "attrs": {},
                             "data": [1.5] * n, "file": None})
        x["file"] = {"filename": "x.nc", "metavars": ["wrong"]}
        w["victim"] = x["name"]
    o["text"] = t
    w.setdefault("victim", o["name"])
    w["bad"] = kind
    return w


def run_specs(w, stt):
    import copy

    env = W.env_of(w)
    valid = copy.deepcopy(w)
    valid["outvars"] = [o for o in valid["outvars"] if o["name"] != "wrong"]
    victim = [o for o in w["outvars"] if o["name"] == w["victim"]][0]
    try:
        for o in w["outvars"]:
            if o is not victim:
                W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused anyway")
    what = "{}: {} {} = {}".format(w["bad"], victim["name"], victim["dims"], victim.get("text"))
    with W.scratch() as root:
        W.write_inputs(w, root)
        d = {}
        for o in w["outvars"]:
            d[o["name"]] = o
        try:
            W.execute(dict(w, outvars=[dict(o, **({"omit": []})) for o in w["outvars"]]), root)
        except Exception:
            pass
        else:
            check(False, "accepted {}", what)
        check(not os.path.exists(os.path.join(root, victim["file"]["filename"])), "the file was written: {}", what)
    stt.event("refused: " + w["bad"])
    stt.nt()


PROP = Prop(
    "C23",
    [Sub("execute", cases, run, quick=500), Sub("reduced", lambda: cases("sumlike"), run, quick=500), Sub("specify", specs, run_specs, quick=400)],
    rule="specifications with unknown functions or operators, wrong arguments or keywords, one dimension "
    "too many or too few, data of another size than the dimension they share: refused, no file written; random worlds (see C01) executed with chunk sizes over dimensions that some definition (of any "
    "file, at any depth) reduces over, unknown dimensions, sizes that are not positive integers, chunks "
    "that are no dictionary, impossible compression levels, among valid ones, before or after a valid "
    "execution of the same flow: refused, no file written or changed, the flow usable afterwards; with "
    "the debug option, chunks over reduced dimensions are ignored; non-trivial: every refusal",
)
