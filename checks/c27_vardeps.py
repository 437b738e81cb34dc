"""C27: vardeps lists exactly the variables that definitions refer to"""
import contextlib
import io
import itertools
import json
import os
import re

from hypothesis import strategies as st

from checks.c14_parse import strip, trees
from pbt import refparser as R
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

OUT = ["tas", "pr", "T", "x1", "_hidden", "a", "ta_500", "E", "zg", "o3"]
NOTES = ["", "", "", "  # a note", "# x = y", " #"]
LINES = ["", "   ", "# only a note", "#tas = nothing", "\t"]


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(OUT), unique=True, min_size=1, max_size=6))
    vs = []
    for n in names:
        v = {"name": n, "tree": draw(trees(draw(st.integers(1, 3)))),
             "extra": draw(st.lists(st.sampled_from([0, 0, 1]), min_size=1, max_size=5)),
             "spaces": draw(st.lists(st.sampled_from(["", "", " ", "\t"]), min_size=1, max_size=5)),
             "const": draw(st.integers(0, 7)) == 0,
             "freq": draw(st.sampled_from([None, "mon", "day"])), "realm": draw(st.sampled_from([None, "atmos", "ocean"])),
             "note": draw(st.sampled_from(NOTES)), "before": draw(st.lists(st.sampled_from(LINES), max_size=2)),
             "data": draw(st.integers(0, 9)) == 0, "nodef": draw(st.integers(0, 9)) == 0,
             "noattrs": draw(st.integers(0, 5)) == 0, "eq": draw(st.sampled_from(["=", " = ", "  ="]))}
        vs.append(v)
    ask = draw(st.lists(st.sampled_from(OUT), unique=True, max_size=4)) if draw(st.booleans()) else []
    return {"vars": vs, "ask": ask, "deffile": draw(st.booleans()), "freq": draw(st.booleans())}


def noindex(t):
    """indices are constants"""
    if isinstance(t, dict):
        return {k: ([] if k == "i" else noindex(v)) for k, v in t.items()}
    if isinstance(t, list):
        return [noindex(x) for x in t]
    return t


def refers(t):
    if isinstance(t, dict):
        out = {t["v"]} if "v" in t else set()
        for v in t.values():
            out |= refers(v)
        return out
    if isinstance(t, list):
        return set().union(*[refers(x) for x in t]) if t else set()
    return set()


def run(c, stt):
    from pyconform.cli import vardeps

    text, want = {}, {}
    for v in c["vars"]:
        if v["const"]:
            text[v["name"]], want[v["name"]] = "2*3.5", set()
            continue
        t = noindex(v["tree"])
        try:
            R.foldtree(strip(t))
        except R.Lax as e:
            raise Discard(str(e))
        x = R.join_tokens(R.render(t, itertools.cycle(v["extra"] + [0]))[0], itertools.cycle(v["spaces"]))
        if "#" in x:
            raise Discard("number sign")
        text[v["name"]], want[v["name"]] = x.strip(), refers(t)
    with W.scratch() as root:
        fn = os.path.join(root, "spec")
        freq = {}
        if c["deffile"]:
            with open(fn, "w", encoding="utf-8") as f:
                for v in c["vars"]:
                    for b in v["before"]:
                        f.write(b + "\n")
                    f.write("{}{} {}{}\n".format(v["name"], v["eq"], text[v["name"]], v["note"]))
        else:
            spec = {}
            for v in c["vars"]:
                d = {"dimensions": [], "attributes": {}, "definition": text[v["name"]]}
                if v["data"]:
                    d["definition"] = [1, 2, 3]
                    want.pop(v["name"])
                elif v["nodef"]:
                    d.pop("definition")
                    want.pop(v["name"])
                if v["noattrs"]:
                    d.pop("attributes")
                    spec[v["name"]] = d
                    continue
                if v["freq"]:
                    d["attributes"]["frequency"] = v["freq"]
                    freq[v["name"]] = (v["freq"], v["realm"])
                if v["realm"]:
                    d["attributes"]["realm"] = v["realm"]
                spec[v["name"]] = d
            with open(fn, "w") as f:
                json.dump(spec, f)
        argv = (["-d"] if c["deffile"] else []) + (["-f"] if c["freq"] else []) + ["-n", fn] + c["ask"]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            vardeps.main(argv)
        lines = out.getvalue().split("\n")
    what = "{} of {}".format(argv[:1] + c["ask"], text)
    check(lines[0] == "Output Variable Dependencies:", "{}: {}", what, lines)
    k = lines.index("")
    got = {}
    for s in lines[1:k]:
        m = re.match(r"^ +(\w+)(?: \[(.*?)\])?: +(.*)$", s)
        check(m is not None, "{}: line {!r}", what, s)
        check(m.group(1) not in got, "{}: {} is listed twice", what, m.group(1))
        got[m.group(1)] = (m.group(2), m.group(3))
    asked = sorted(c["ask"] or want)
    check(list(got) == asked, "{}: variables {} instead of {}", what, list(got), asked)
    union = set()
    for n in asked:
        head, deps = got[n]
        if n not in want:
            check(deps == "Not defined.", "{}: {} is not defined, but: {}", what, n, deps)
        elif not want[n]:
            check(deps == "No dependencies.", "{}: {} has no dependencies, but: {}", what, n, deps)
        else:
            check(deps.split() == sorted(want[n]), "{}: {} needs {}, but: {}", what, n, sorted(want[n]), deps)
            union |= want[n]
            if n in freq:
                f, r = freq[n]
                check(head is not None and head.split(",")[0] == f and (r is None or head.split(",")[1] == r),
                      "{}: {} of {} is announced as {}", what, n, freq[n], head)
                stt.event("with frequency")
            else:
                check(head is None, "{}: {} is announced as {}", what, n, head)
    check(lines[k + 1].startswith("Complete Specification Requires"), "{}: {}", what, lines)
    rest = [x for s in lines[k + 2:] for x in s.split()]
    check(rest == sorted(union), "{}: all variables {} instead of {}", what, rest, sorted(union))
    if union:
        stt.nt()
    if c["deffile"]:
        stt.event("definitions file")
    if c["ask"]:
        stt.event("selected variables")


PROP = Prop(
    "C27",
    [Sub("deps", cases, run, quick=900)],
    rule="definitions files (with notes, blank lines) and standardization files of 1-6 variables with random "
    "definitions (see C14; keywords, comparisons, strings), data or constants, all or some variables asked "
    "for, known and unknown: variables listed for each and in total compared with those of the generated "
    "expressions; non-trivial: there are some",
)
