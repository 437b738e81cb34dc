"""C22: character variables hold the strings they are defined as"""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Prop, Sub, check
from pbt.gen import lengthen

ALPHA = st.text(alphabet="abZ 0_-.", min_size=0, max_size=7).map(lambda s: s.rstrip(" "))


def nested(draw, shape, maxlen):
    if not shape:
        return draw(ALPHA)[:maxlen].rstrip()
    return [nested(draw, shape[1:], maxlen) for _ in range(shape[0])]


@st.composite
def cases(draw):
    ny, nt = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    sizes = lengthen(draw, {"y": ny, "t": nt})
    ny, nt = sizes["y"], sizes["t"]
    slen = draw(st.integers(1, 7))
    ins = []
    for k in range(draw(st.integers(1, 3))):
        dims = draw(st.sampled_from([["y"], ["y"], [], ["t", "y"], ["t"]]))
        ins.append({"name": "n%d" % k, "dims": dims, "data": nested(draw, [sizes[d] for d in dims], slen)})
    outs = []
    dlen = draw(st.integers(1, 7))
    exact = "x" * dlen  # data that share a string dimension have one length
    for k in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["read", "read", "index", "data", "data", "ref"]))
        o = {"name": "o%d" % k, "kind": kind, "own": k == 0 or draw(st.booleans()), "sdim": "strlen",
             "fill": draw(st.integers(0, 4)) == 0}
        if kind == "ref":
            # (whose dimensions are not those of input variables)
            prev = [p for p in outs if p["kind"] == "data" and p["sdim"] != "strlen" and p["dims"][0] == "k"]
            if not prev:
                kind = o["kind"] = "read"
            else:
                o["of"] = draw(st.sampled_from([p["name"] for p in prev]))
        if kind in ("read", "index"):
            o["of"] = draw(st.sampled_from([v["name"] for v in ins]))
            v = [v for v in ins if v["name"] == o["of"]][0]
            o["ix"] = []
            if kind == "index":
                for d in v["dims"]:
                    o["ix"].append(draw(st.sampled_from([":", "::-1", "0", "-1"])))
        if kind == "data":
            dims = draw(st.sampled_from([["k"], ["lat"], ["k", "l"], ["time", "lat"], ["lat"]]))
            shape = [{"k": 2, "l": 3, "lat": ny, "time": nt}[d] for d in dims]
            o["dims"] = dims
            o["sdim"] = draw(st.sampled_from(["strlen", "strlen", "strlen2"]))
            data = nested(draw, shape, dlen)
            x = data
            while isinstance(x[0], list):
                x = x[0]
            x[0] = exact
            o["data"] = data
            o["apart"] = draw(st.integers(0, 3)) == 0  # given character by character
        outs.append(o)
    return {"ny": ny, "nt": nt, "slen": slen, "ins": ins, "outs": outs,
            "direction": draw(st.sampled_from([None, None, "increasing", "decreasing"])),
            "down": draw(st.booleans()),
            "format": draw(st.sampled_from(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC"])),
            "chunks": draw(st.sampled_from([[], [], [["lat", 1]], [["lat", 2], ["time", 1]], [["lat", 2], ["strlen", 2]]])),
            "unl": draw(st.booleans()),
            "bad": draw(st.sampled_from([None] * 7 + ["number", "numbers", "text", "sum", "units"]))}


def padded(data, n):
    return [padded(x, n) for x in data] if isinstance(data, list) else data.ljust(n)


def apart(data, n):
    return [apart(x, n) for x in data] if isinstance(data, list) else list(data.ljust(n))


def grid(ny, down):
    v = [10.0 * k for k in range(ny)]
    return v[::-1] if down else v


def run(c, stt):
    from netCDF4 import Dataset
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    ins = {v["name"]: v for v in c["ins"]}
    byname = {o["name"]: o for o in c["outs"]}
    with W.scratch() as root:
        fn = os.path.join(root, "in.nc")
        with Dataset(fn, "w") as nc:
            nc.createDimension("t", None if c["unl"] else c["nt"])
            nc.createDimension("y", c["ny"])
            nc.createDimension("s", c["slen"])
            nc.createVariable("cy", "f8", ("y",))[:] = grid(c["ny"], c["down"])
            nc.createVariable("ct", "f8", ("t",))[:] = np.arange(c["nt"])
            for v in c["ins"]:
                x = nc.createVariable(v["name"], "S1", tuple(v["dims"]) + ("s",))
                a = np.array(v["data"], dtype="S%d" % c["slen"])
                x[...] = a.reshape(a.shape + (1,)).view("S1")
        lat = {"definition": "cy", "dimensions": ["lat"], "datatype": "double", "attributes": {"axis": "Y"}}
        if c["direction"]:
            lat["attributes"]["direction"] = c["direction"]
        spec = {"lat": lat, "time": {"definition": "ct", "dimensions": ["time"], "datatype": "double"}}
        want = {}
        for o in c["outs"]:
            d = {"datatype": "char", "attributes": {"long_name": "some names"}}
            if o["fill"]:
                d["attributes"]["_FillValue"] = " "
            if o["kind"] == "data":
                d["definition"], d["dimensions"] = o["data"], o["dims"] + [o["sdim"]]
                want[o["name"]] = (o["dims"], np.array(o["data"], dtype="S"))
                if o.get("apart"):
                    n = want[o["name"]][1].dtype.itemsize
                    d["definition"] = apart(o["data"], n)
                    want[o["name"]] = (o["dims"], np.array(padded(o["data"], n), dtype="S"))
            elif o["kind"] == "ref":
                p = byname[o["of"]]
                d["definition"], d["dimensions"] = o["of"], p["dims"] + [p["sdim"]]
                want[o["name"]] = want[o["of"]]
            else:
                v = ins[o["of"]]
                ix = o["ix"] + [":"] * (len(v["dims"]) - len(o["ix"]))
                a = np.array(v["data"], dtype="S")
                a = a[tuple(slice(None) if i == ":" else slice(None, None, -1) if i == "::-1" else int(i) for i in ix)]
                dims = [{"y": "lat", "t": "time"}[q] for q, i in zip(v["dims"], ix) if ":" in i]
                d["definition"] = o["of"] + ("[" + ",".join(o["ix"]) + "]" if o["ix"] else "")
                d["dimensions"] = dims + ["strlen"]
                want[o["name"]] = (dims, np.asarray(a))
            if o["own"]:
                d["file"] = {"filename": os.path.join(root, o["name"] + ".nc"), "format": c["format"],
                             "metavars": [x for x in want if x != o["name"]]}
            spec[o["name"]] = d

        # an input and the data on a dimension that is only known from inputs
        def flow(dsd):
            return DataFlow(InputDatasetDesc("inp", filenames=[fn]), OutputDatasetDesc("out", dsdict=dsd))

        if c["bad"]:
            stt.event("refused: " + c["bad"])
            stt.nt()
            one = {"lat": lat, "time": spec["time"],
                   "o": {"definition": {"number": "cy*7", "numbers": "cy", "text": "bad", "sum": "bad + bad",
                                        "units": "bad"}[c["bad"]],
                         "dimensions": ["lat"] if c["bad"][:6] == "number" else ["lat", "strlen"],
                         "datatype": "double" if c["bad"] == "text" else "char",
                         "attributes": {"units": "m"} if c["bad"] == "units" else {},
                         "file": {"filename": os.path.join(root, "bad.nc")}}}
            with Dataset(fn, "a") as nc:
                nc.createVariable("bad", "S1", ("y", "s"))[...] = b"7"
            try:
                flow(one).execute(serial=True)
            except Exception:
                check(not os.path.exists(os.path.join(root, "bad.nc")), "a refused file was written")
                return
            check(False, "{} {} was written as {}", c["bad"], one["o"]["definition"],
                  W.read_file(os.path.join(root, "bad.nc"))["vars"]["o"]["data"].tolist())
        # chunks are given for dimensions that are mapped from inputs
        chunks = {}
        first = [n for o in c["outs"] if o["own"] for n in spec[o["name"]]["file"]["metavars"] + [o["name"]]]
        fdims = {d for n in first for d in spec[n]["dimensions"]}
        used = {d for n in first if byname[n]["kind"] != "data" for d in spec[n]["dimensions"]
                if byname[n]["kind"] != "ref" or d in ("lat", "time")} | (fdims & {"lat", "time"})
        for d, k in c["chunks"]:
            if d in used:
                chunks[d] = k
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            flow(spec).execute(chunks=chunks, serial=True)
        inv = c["direction"] is not None and c["ny"] > 1 and (c["direction"] == "decreasing") != c["down"]
        for o in c["outs"]:
            if not o["own"]:
                continue
            f = W.read_file(os.path.join(root, o["name"] + ".nc"))
            there = set(f["vars"])
            for n in there - {"lat", "time"}:
                dims, a = want[n]
                x = f["vars"][n]
                what = "{} = {!r} in {}".format(n, spec[n]["definition"], f["dims"])
                check(list(x["dims"]) == spec[n]["dimensions"], "{}: dimensions {}", what, x["dims"])
                check(x["dtype"] == np.dtype("S1"), "{}: type {}", what, x["dtype"])
                if inv and "lat" in dims and "lat" in there:
                    a = a[tuple(slice(None, None, -1 if d == "lat" else 1) for d in dims)]
                    stt.event("reversed")
                got = np.ma.filled(x["data"], b"").astype("S1")
                got = strings(got)
                exp, cmp = a, got
                if any(p["fill"] for p in c["outs"]):
                    # blanks are missing values, then
                    exp, cmp = (np.array([t.replace(b" ", b"").replace(b"\0", b"") for t in q.ravel().tolist()],
                                         dtype="S9").reshape(q.shape) for q in (exp, cmp))
                check(cmp.shape == exp.shape and (cmp == exp).all(), "{}: {} instead of {} (chunks {})", what,
                      got.tolist(), a.tolist(), chunks)
                check(x["attrs"].get("long_name") == "some names", "{}: attributes {}", what, x["attrs"])
            check(o["name"] in there, "{} is not in its file", o["name"])
            if inv or chunks or len(there) > 3:
                stt.nt()


def strings(a):
    """strings of characters in the last dimension"""
    flat = a.reshape(-1, a.shape[-1])
    out = [b"".join(x if x else b"\0" for x in row.tolist()).rstrip(b"\0") for row in flat]
    return np.array(out, dtype="S%d" % max(1, a.shape[-1])).reshape(a.shape[:-1])


PROP = Prop(
    "C22",
    [Sub("strings", cases, run, quick=600)],
    rule="string variables of ranks 0-2 read from files, whole or by index, and strings given as data, "
    "whole or character by character, or references to them, of different lengths in a common string dimension, with reversed "
    "coordinates, chunks (also of the string dimension), fill values and file formats: strings read "
    "back from the files; numbers as text and text as numbers, in sums or with units are refused; "
    "non-trivial: reversed, chunked, several in a file, or refused",
)
