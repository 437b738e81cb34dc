"""C28: the command line tool writes what the data flow of the same specification writes"""
import contextlib
import importlib.util
import io
import json
import os
import sys
import warnings
from collections import OrderedDict

from hypothesis import strategies as st

from checks.c02_chunks import chunk_sizes, mapped, reduced
from pbt import fakempi
from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

MODULE = '''
from pyconform.functions import Function
from pyconform.physarray import PhysArray

class F{n}(Function):
    key = "user{n}"

    def __init__(self, data, factor=3):
        super(F{n}, self).__init__(data, factor=factor)
        self._factor = factor

    def __getitem__(self, index):
        data = self.arguments[0][index]
        factor = self._factor
        if not isinstance(factor, (int, float)):
            # (a variable)
            factor = float(factor[()].data)
        return PhysArray(data * factor, name="user", units=data.units, dimensions=data.dimensions,
                         positive=data.positive)
'''


@st.composite
def cases(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 4},
                      out={"nvars": (1, 3), "depth": 1, "directions": True,
                           "formats": ("NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_CLASSIC")}))
    if draw(st.booleans()):
        w["exec"]["chunks"] = draw(chunk_sizes(w, mapped(w) - reduced(w)))
    w["debug"] = draw(st.integers(0, 5)) == 0
    if w["debug"]:
        w["exec"]["chunks"] = draw(chunk_sizes(w, mapped(w)))
    w["exec"]["history"] = draw(st.booleans())
    w["exec"]["deflate"] = draw(st.sampled_from([None, None, 0, 1, 5, 9]))
    for o in w["outvars"]:
        if o["file"] and draw(st.booleans()):
            o["file"]["deflate"] = draw(st.integers(0, 9))
    own = [o for o in w["outvars"] if o["file"]]
    if draw(st.integers(0, 2)) == 0:
        o = draw(st.sampled_from(own))
        o["attrs"][draw(st.sampled_from(["valid_min", "valid_max"]))] = draw(st.sampled_from([0.0, 1.0, -2.0, 1e6, -1e6]))
    w["error"] = draw(st.integers(0, 2)) == 0
    w["module"] = draw(st.sampled_from([None, None, 1, 2]))
    w["factor"] = draw(st.sampled_from(["", ",factor=3", ", factor = 3.0", ",factor=_three"]))
    w["glob"] = draw(st.sampled_from(["names", "star", "both", "question", "twice"]))
    w["short"] = draw(st.booleans())
    w["nothing"] = draw(st.integers(0, 9)) == 0
    w["refuse"] = draw(st.sampled_from([None] * 12 + ["chunk", "size", "three", "nofile", "badjson", "option", "level", "nomodule"]))
    return w


COUNT = [0]


def run(w, stt):
    from pyconform.cli import xconform

    env = W.env_of(w)
    try:
        for o in w["outvars"]:
            W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused")
    with W.scratch() as root:
        W.write_inputs(w, root)
        out = os.path.join(root, "out")
        dsd = W.dsdict(w, out)
        argv = []
        opt = (lambda a, b: a) if w["short"] else (lambda a, b: b)
        for d, n in w["exec"]["chunks"]:
            argv += [opt("-c", "--chunk"), "{},{}".format(d, n)]
        if w["exec"]["deflate"] is not None:
            argv += [opt("-d", "--deflate"), str(w["exec"]["deflate"])]
        if not w["exec"]["history"]:
            argv += [opt("-n", "--no_history")]
        if w["error"]:
            argv += [opt("-e", "--error")]
        if w["debug"]:
            argv += ["--debug"]
        mods = []
        own = [o for o in w["outvars"] if o["file"]]
        if w["module"]:
            for k in range(w["module"]):
                COUNT[0] += 1
                name = "m{}.py".format(COUNT[0])
                with open(os.path.join(root, name), "w") as f:
                    f.write(MODULE.format(n=COUNT[0]))
                mods.append(COUNT[0])
                argv += [opt("-m", "--module"), os.path.join(root, name)]
            for o, n in zip(own, mods):
                # the function multiplies its argument by 3
                factor = w["factor"] if o["datatype"] != "int" else ""
                dsd[o["name"]]["definition"] = "user{}({}{})".format(n, dsd[o["name"]]["definition"], factor)
                if "_three" in factor:
                    dsd["_three"] = {"definition": 3.0, "datatype": "double", "dimensions": []}
                    f = dsd[o["name"]]["file"]
                    dsd[o["name"]]["file"] = dict(f, metavars=list(f.get("metavars", [])) + ["_three"])
        with open(os.path.join(root, "spec.json"), "w") as f:
            json.dump(dsd, f)
        argv += [opt("-f", "--stdfile"), os.path.join(root, "spec.json")]
        if w["short"] and not w.get("ranks"):
            argv += ["-s"]
        names = [os.path.join(root, "in%d.nc" % k) for k in range(w["nfiles"])]
        files = {"names": names, "star": [os.path.join(root, "in*.nc")],
                 "both": names[:1] + [os.path.join(root, "in[1-9].nc")],
                 "twice": names[:1] + [os.path.join(root, "in*.nc")],
                 "question": [os.path.join(root, "in?.nc")]}[w["glob"]]
        if w["nothing"]:
            files = [] if w["short"] else [os.path.join(root, "nothing*.nc")]
        before = set(sys.modules)
        text = io.StringIO()
        if w["refuse"]:
            bad = {"chunk": ["-c", "lat"], "size": ["-c", "lat,many"], "three": ["-c", "lat,2,3"], "option": ["--nosuchoption"],
                   "level": ["-d", "high"], "nofile": ["-f", os.path.join(root, "nosuch.json")],
                   "badjson": ["-f", names[0]], "nomodule": ["-m", os.path.join(root, "nosuch.py")]}[w["refuse"]]
            if w["nothing"] and w["refuse"] == "nomodule":
                raise Discard("modules are not loaded without input files")
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    xconform.main(argv + bad + files)
                except (Exception, SystemExit) as e:
                    check(getattr(e, "code", 1) not in (0, None), "{}: exit with success", bad)
                else:
                    check(False, "{} was accepted", bad)
            check(not os.path.exists(out), "files were written with {}", bad)
            stt.event("refused command line")
            stt.nt()
            return
        err = None
        if w.get("ranks"):
            errs = fakempi.run_ranks(len(w["ranks"]), lambda rank: xconform.main(argv + files), os.path.join(root, "logs"), w["ranks"])
            own_errs = [e for e in errs.values() if "RankEnded" not in e]
            if own_errs and all("ValidationWarning" in e for e in own_errs):
                from pyconform.flownodes import ValidationWarning

                err = ValidationWarning(own_errs[0])
            else:
                check(not errs, "{} ranks with {}: {}", len(w["ranks"]), " ".join(argv + files),
                      {r: e.strip().splitlines()[-1] for r, e in errs.items()})
            stt.event("ranks")
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(text):
                try:
                    if not w.get("ranks"):
                        xconform.main(argv + files)
                except Warning as e:
                    err = e
        line = " ".join(a.replace(root, "") for a in argv + files)
        if w["nothing"]:
            check(not os.path.exists(out), "files were written without input files: {}", line)
            check(w.get("ranks") or "validated" in text.getvalue(), "nothing is said without input files: {}", text.getvalue())
            stt.event("no input files")
            return
        if w.get("ranks"):
            # (the functions were loaded by the ranks only)
            loaded = []
            for n in mods:
                spec = importlib.util.spec_from_file_location("m%d" % n, os.path.join(root, "m%d.py" % n))
                loaded.append(importlib.util.module_from_spec(spec))
                spec.loader.exec_module(loaded[-1])
        # the same from the library
        ref = os.path.join(root, "ref")
        dsd2 = json.loads(json.dumps(dsd).replace(out, ref), object_pairs_hook=OrderedDict)
        seen = W.execute(w, root, flow=W.make_flow(w, root, dsd=dsd2), debug=w["debug"])
        invalid = [x for x in seen if type(x.message).__name__ == "ValidationWarning"]
        if w["error"] and invalid:
            check(err is not None and type(err).__name__ == "ValidationWarning",
                  "-e: no error, though {}", invalid[0].message)
            stt.event("validation error")
            stt.nt()
            return
        check(err is None, "{}: {!r}", line, err)
        there = sorted(os.listdir(out))
        check(there == sorted(os.listdir(ref)), "{}: files {} instead of {}", line, there, sorted(os.listdir(ref)))
        for f in there:
            W.same_files(W.read_file(os.path.join(ref, f)), W.read_file(os.path.join(out, f)),
                         "library / command line {}".format(line))
        if not mods and not invalid:
            W.verify_files(w, out, stt, env)
        for o, n in zip(own, mods):
            m, scale = W.expected(w, o, env)
            if invalid or W.inverted_dims(w, W.file_vars(w, o["name"]), env) or o["datatype"] == "int":
                continue
            if "units" in o["attrs"] and o["attrs"]["units"] not in ("?", ""):
                raw = W.refeval.evaluate(o["tree"], env)
                if raw.units != m.units:
                    continue
            got = W.read_file(os.path.join(out, o["file"]["filename"]))["vars"][o["name"]]["data"]
            W.compare_var(o, m.like(m.val * 3), scale * 3, got, "user function of module {} on {}".format(n, W.render(o["tree"])))
            stt.event("user function")
            stt.nt()
        if len(argv) > 4 or w["glob"] != "names":
            stt.nt()
        for k in set(sys.modules) - before:
            if k.startswith("user"):
                del sys.modules[k]


@st.composite
def rank_cases(draw):
    w = draw(cases())
    w["refuse"] = None
    w["ranks"] = list(draw(st.permutations(range(draw(st.integers(1, 4))))))
    return w


PROP = Prop(
    "C28",
    [Sub("command", cases, run, quick=400), Sub("ranks", rank_cases, run, quick=120)],
    rule="command lines, some malformed, with any chunks, compression, history, error mode, user functions, debug option, short and "
    "long options, input files by name and pattern or none, for random worlds (see C01): the files "
    "written are those of the library with these options and those of the reference; non-trivial: "
    "options or patterns are given; also as 1-4 ranks that send each other messages (processes with a "
    "stand-in for mpi4py below asaptools' own communicator), which all have to end",
)
