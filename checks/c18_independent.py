"""C18: every output file depends on its own definitions only, and on nothing done before"""
import copy
import hashlib
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check


@st.composite
def cases(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3},
                      out={"nvars": (2, 4), "depth": 2, "coordless": False, "directions": True}))
    n = len(w["outvars"])
    w["perm"] = list(draw(st.permutations(range(n))))
    own = [o["name"] for o in w["outvars"] if o["file"]]
    w["keep"] = draw(st.lists(st.sampled_from(own), unique=True, min_size=1))
    w["file perm"] = list(draw(st.permutations(range(w["nfiles"]))))
    w["steps"] = draw(st.lists(st.sampled_from(["again", "new flow", "order", "subset", "files", "units",
                                            "rewritten"]),
                               min_size=2, max_size=4))
    w["turn"] = draw(st.integers(1, 3))
    return w


def rewritten(w):
    """the same specification over other input: other units, directions and values under the same names"""
    ww = copy.deepcopy(w)
    for v in ww["invars"]:
        fam = W.FAM.get(v.get("fam"))
        if fam and v["units"] in fam:
            v["units"] = fam[(fam.index(v["units"]) + w["turn"]) % len(fam)]
            v["data"] = v["data"][::-1]
        elif v["units"] in W.TUNITS:
            v["units"] = W.TUNITS[(W.TUNITS.index(v["units"]) + w["turn"]) % len(W.TUNITS)]
        v["pos"] = {"up": "down", "down": "up"}.get(v["pos"])
    return ww


def digest(root):
    out = {}
    for f in sorted(os.listdir(root)):
        if f.startswith("in"):
            with open(os.path.join(root, f), "rb") as h:
                out[f] = hashlib.sha1(h.read()).hexdigest()
    return out


def needed(w, keep):
    """the variables the files of the kept ones need; the coordinates stay, too"""
    byname = {o["name"]: o for o in w["outvars"]}
    names, todo = set(), list(keep) + [o["name"] for o in w["outvars"] if not o["file"]]
    while todo:
        n = todo.pop()
        if n in names:
            continue
        names.add(n)
        o = byname[n]
        todo += (o["file"] or {}).get("metavars", [])
        todo += o["attrs"].get("bounds", "").split() + o["attrs"].get("coordinates", "").split()
        todo += refers(o, byname)
    return [o for o in w["outvars"] if not o["file"] or o["name"] in names]


def refers(o, byname):
    """data variables of the specification in a definition"""
    return [v for v in re.findall(r"[A-Za-z_]\w*", W.render(o["tree"])) if v in byname] if "tree" in o else []


def complete(w):
    """are all data variables that definitions refer to in some file (others are not known to a flow)"""
    byname = {o["name"]: o for o in w["outvars"]}
    there = set()
    for n in W.own_files(w):
        there |= set(W.file_vars(w, n))
    return all(v in there for n in there for v in refers(byname[n], byname))


def outcome(w, root, out):
    """the files of a new flow, or the error"""
    W.dsdict(w, out)
    try:
        W.execute(w, root, out=out)
    except Exception as err:
        return repr(err)[:200]
    return {o["name"]: W.read_file(os.path.join(out, o["file"]["filename"])) for o in w["outvars"] if o["file"]}


def run(w, stt):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    env = W.env_of(w)
    try:
        for o in w["outvars"]:
            W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused")
    names = [o["name"] for o in w["outvars"]]
    with W.scratch() as root:
        W.write_inputs(w, root)
        before = digest(root)

        def go(label, ww, files=None, flow=None):
            out = os.path.join(root, label)
            dsd = W.dsdict(ww, out)
            snap = json.dumps(dsd)
            if flow is None:
                inp = InputDatasetDesc("inp", filenames=[os.path.join(root, "in%d.nc" % k) for k in
                                                         (files or range(w["nfiles"]))])
                flow = DataFlow(inp, OutputDatasetDesc("out", dsdict=dsd))
            W.execute(ww, root, flow=flow)
            check(json.dumps(dsd) == snap, "{}: the specification was changed", label)
            check(digest(root) == before, "{}: the input files were changed", label)
            res = {o["name"]: W.read_file(os.path.join(out, o["file"]["filename"]))
                   for o in ww["outvars"] if o["file"]}
            return res, flow

        first, flow = go("first", w)
        for k, s in enumerate(w["steps"]):
            label = "step%d" % k
            ww = w
            what = {"again": "executed again", "new flow": "another flow", "order": "variables in another order",
                    "subset": "fewer output files", "files": "input files in another order",
                    "units": "after a flow with other units", "rewritten": "input files written anew"}[s]
            if s == "again":
                # the same files are written once more
                W.execute(w, root, flow=flow)
                got = {o["name"]: W.read_file(os.path.join(root, "first", o["file"]["filename"]))
                       for o in w["outvars"] if o["file"]}
            elif s == "order":
                ww = dict(w, outvars=[w["outvars"][i] for i in w["perm"]])
                got, _ = go(label, ww)
            elif s == "subset":
                ww = dict(w, outvars=needed(w, w["keep"]))
                if not complete(ww):
                    stt.event("incomplete subset")
                    continue
                got, _ = go(label, ww)
                if len(ww["outvars"]) < len(names):
                    stt.nt()
            elif s == "files":
                got, _ = go(label, w, files=w["file perm"])
            elif s == "rewritten":
                # other input under the same path, against the same input under a path of its own
                ww = rewritten(w)
                other = os.path.join(root, "other%d" % k)
                os.mkdir(other)
                W.write_inputs(ww, other)
                want = outcome(ww, other, os.path.join(root, label + "w"))
                W.write_inputs(ww, root)
                res = outcome(ww, root, os.path.join(root, label + "r"))
                W.write_inputs(w, root)
                before = digest(root)
                if isinstance(want, str) or isinstance(res, str):
                    check(type(want) is type(res), "{}: {} instead of {}", what, res, want)
                    stt.event("rewritten input is refused")
                else:
                    for n in want:
                        W.same_files(want[n], res[n], "{} ({})".format(n, what))
                got, _ = go(label, w)
            elif s == "units":
                # a flow that asks for something else from the same inputs comes in between
                ww = copy.deepcopy(w)
                for o in [x for x in ww["outvars"] if "tree" in x]:
                    o["attrs"].pop("units", None)
                    o["attrs"].pop("positive", None)
                go(label + "x", ww)
                got, _ = go(label, w)
            else:
                got, _ = go(label, w)
            stt.event(what)
            if w["nfiles"] > 1 or s in ("again", "order", "units", "rewritten"):
                stt.nt()
            for n in got:
                if n in first:
                    W.same_files(first[n], got[n], "{} ({})".format(n, what))


@st.composite
def ambiguous(draw):
    """no coordinates: which dimension is which, is found out from the variables"""
    same = draw(st.booleans())
    dims = [[d, 2 if same else k + 2, False] for k, d in enumerate("tyx")]
    ins, outs = [], []
    for k in range(draw(st.integers(2, 4))):
        nd = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
        ds = list(draw(st.permutations("tyx")))[:nd]
        n = int(np.prod([dict((d, m) for d, m, _ in dims)[d] for d in ds]))
        ins.append({"name": "v%d" % k, "dims": ds, "dtype": "f8", "data": [float(i + 100 * k) for i in range(n)],
                    "mask": None, "units": "m", "pos": None, "cal": None, "files": [0]})
    for k in range(draw(st.integers(2, 4))):
        v = draw(st.sampled_from(ins))
        names = draw(st.permutations(["T", "Y", "X"]))[: len(v["dims"])]
        # (mostly the same dimensions in another order)
        if draw(st.integers(0, 3)):
            names = draw(st.permutations([d.upper() for d in v["dims"]]))
        outs.append({"name": draw(st.sampled_from("abcdefgh")) + str(k), "dims": list(names), "datatype": "double",
                     "attrs": {"units": "m"}, "tree": W.V(v["name"]), "file": {"filename": "f%d.nc" % k}})
    return {"dims": dims, "dmap": {}, "nfiles": 1, "exec": {}, "invars": ins, "outvars": outs, "extra": [0],
            "perm": list(draw(st.permutations(range(len(outs))))),
            "order": list(draw(st.permutations(["T", "Y", "X"])))}


def run_ambiguous(w, stt):
    used = {d for o in w["outvars"] for d in o["dims"]}
    with W.scratch() as root:
        W.write_inputs(w, root)
        first = outcome(w, root, os.path.join(root, "a"))
        other = dict(w, outvars=[w["outvars"][i] for i in w["perm"]])
        second = outcome(other, root, os.path.join(root, "b"))
        what = "{} over inputs {} in the order {}".format(
            [(o["name"], o["dims"], o["tree"]["v"]) for o in w["outvars"]], [(v["name"], v["dims"]) for v in w["invars"]],
            [o["name"] for o in other["outvars"]])
        if isinstance(first, str) or isinstance(second, str):
            check(isinstance(first, str) and isinstance(second, str), "{}: {} instead of {}", what,
                  second if isinstance(second, str) else "files", first if isinstance(first, str) else "files")
            stt.event("refused")
        else:
            for n in first:
                W.same_files(first[n], second[n], "{} ({})".format(n, what))
            stt.event("files")
    if w["perm"] != sorted(w["perm"]) and len(used) > 1:
        stt.nt()


PROP = Prop(
    "C18",
    [Sub("history", cases, run, quick=350), Sub("ambiguous", ambiguous, run_ambiguous, quick=400)],
    rule="histories of 2-4 further runs after a first one: the same flow again, a new flow, variables of "
    "the specification in another order, fewer output files, input files in another order, a flow with "
    "other units in between, other input under the same path in between (itself compared with that input "
    "under a path of its own); all files compared with those of the first run, input files and "
    "specification compared byte for byte; specifications without coordinates, of variables of 1-3 dimensions in any order, with their variables permuted: the same files or refused; non-trivial: any of these but a plain repetition",
)
