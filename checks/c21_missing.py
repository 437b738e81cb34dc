"""C21: what can not be produced is left out with a warning, and nothing else is"""
import os
import re

from hypothesis import strategies as st

from pbt import named as N
from pbt import world as W
from pbt.core import Discard, Prop, Sub, check


@st.composite
def cases(draw):
    w = draw(W.worlds(inp={"ndims": (1, 3), "maxsize": 3, "nvars": (2, 6)},
                      out={"nvars": (2, 5), "depth": 2, "coordless": False, "directions": True}))
    data = [v["name"] for v in w["invars"] if not v.get("coord")]
    gone = draw(st.lists(st.sampled_from(data), unique=True, max_size=2))
    # at most one dimension without a coordinate: otherwise dimensions can not be told apart
    coords = [v["name"] for v in w["invars"] if v.get("coord")]
    unknown = any(d == "b" for d, _, _ in w["dims"])
    if not unknown and draw(st.integers(0, 2)) == 0:
        gone.append(draw(st.sampled_from(coords)))
    w["gone"] = gone
    w["rename"] = draw(st.booleans())
    # variables of the specification without a definition
    nodef = []
    if draw(st.integers(0, 2)) == 0:
        used = set()
        for o in w["outvars"]:
            used |= set((o["file"] or {}).get("metavars", []))
            used |= set(o["attrs"].get("bounds", "").split() + o["attrs"].get("coordinates", "").split())
        free = [o["name"] for o in w["outvars"]
                if o["name"] not in used and "tree" in o and re.match("_?[oa]", o["name"])]
        if free:
            nodef = draw(st.lists(st.sampled_from(free), unique=True, min_size=1, max_size=2))
    w["nodef"] = nodef
    # a definition with a variable that is nowhere, anywhere in it
    w["nowhere"] = None
    if draw(st.booleans()):
        w["nowhere"] = draw(lost_definitions(draw(st.sampled_from(data))))
        w["nowhere_dims"] = draw(st.sampled_from([o["dims"] for o in w["outvars"]]))
    w["how"] = draw(st.sampled_from(["absent", "empty", "blank"]))
    # or one that others name
    w["named"] = None
    if draw(st.integers(0, 4)) == 0:
        w["nodef"] = []
        used = sorted({n for o in w["outvars"] if o["file"] for n in
                       o["file"].get("metavars", []) + o["attrs"].get("bounds", "").split() + o["attrs"].get("coordinates", "").split()})
        used = [n for n in used if n in {o["name"] for o in w["outvars"]}]
        if used:
            w["named"] = draw(st.sampled_from(used))
    return w


@st.composite
def lost_definitions(draw, other):
    t = "nowhere"
    for _ in range(draw(st.integers(0, 3))):
        t = draw(st.sampled_from(["limit({0}, above={1}, below=0)", "limit({0}, below=0, above={1})", "limit({0}, above={1})", "limit({1}, above=1)",
                                  "({0} + {1})", "({1} - {0})", "(-{1})", "mean({1}, 'x')", "sqrt({1} * {1})", "({1} / 2)", "(2 ** {1})",
                                  "up({1})", "chunits({1}, units='1')", "limit({1}, below={0})"])).format(other, t)
    return t


def names_in(o):
    return set(re.findall(r"[A-Za-z_]\w*", re.sub(r"\"[^\"]*\"|'[^']*'", "", W.render(o["tree"]))))


def run(w, stt):
    env = W.env_of(w)
    gone = set(w["gone"])
    outvars = [o for o in w["outvars"] if o["name"] not in w["nodef"]]
    try:
        for o in outvars:
            if not ("tree" in o and names_in(o) & gone):
                W.expected(w, o, env)
    except N.Refuse:
        raise Discard("refused")
    skipped = {o["name"] for o in outvars if "tree" in o and names_in(o) & gone}
    w2 = dict(w, outvars=outvars)
    own = W.own_files(w2)
    there = {x for n in own for x in W.file_vars(w2, n, True)}
    byname = {o["name"] for o in w["outvars"]}
    if any("tree" in o and (names_in(o) & byname) - there for o in outvars):
        raise Discard("refers to data that are in no file")
    lost = {}
    for n in own:
        # hidden variables are needed as well
        need = W.file_vars(w2, n, True)
        if skipped & set(need):
            lost[n] = own[n]
    written = {n: own[n] for n in own if n not in lost}
    # the inputs without the variables
    w3 = dict(w2, invars=[v for v in w["invars"] if v["name"] not in gone])
    if w["rename"]:
        w3["invars"] = w3["invars"] + [dict(v, name=v["name"] + "_") for v in w["invars"] if v["name"] in gone]
    if not w3["invars"]:
        raise Discard("no input")
    with W.scratch() as root:
        W.write_inputs(w3, root)
        inputs = set(os.listdir(root))
        dsd = W.dsdict(w, root)
        for n in w["nodef"] + [w["named"]] * bool(w["named"]):
            if w["how"] == "absent":
                del dsd[n]["definition"]
            else:
                dsd[n]["definition"] = {"empty": "", "blank": " \n"}[w["how"]]
        import warnings

        if w["nowhere"]:
            dsd["nowhere1"] = {"definition": w["nowhere"], "dimensions": list(w["nowhere_dims"]), "datatype": "double", "attributes": {"units": "1"},
                               "file": {"filename": os.path.join(root, "nowhere1.nc")}}
        if w["named"]:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    flow = W.make_flow(w3, root, dsd=dsd)
                    W.execute(w3, root, flow=flow)
            except Exception:
                pass
            else:
                check(False, "variable {}, which others need, has no definition: not refused", w["named"])
            check(set(os.listdir(root)) == inputs, "refused, but there are files {}", set(os.listdir(root)) - inputs)
            stt.event("refused: a named variable has no definition")
            stt.nt()
            return

        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            flow = W.make_flow(w3, root, dsd=dsd)
            W.execute(w3, root, flow=flow)
            msgs = [str(x.message) for x in ws]
        got = set(os.listdir(root)) - inputs
        check(got == set(written.values()), "files {} instead of {} (inputs without {})", sorted(got),
              sorted(written.values()), sorted(gone))
        W.verify_files(w2, root, stt, env, only=set(written))
        defs = [str(x.message) for x in ws if "DefinitionWarning" in type(x.message).__name__]
        for n in sorted(skipped) + w["nodef"]:
            if n in skipped and not known(w2, n):
                continue
            check(any(re.search(r"Skipping output variable %s\b" % re.escape(n), m) for m in defs),
                  "no warning that variable {} is left out: {}", n, defs)
        for n, f in lost.items():
            check(any("Skipping output file" in m and f in m for m in defs),
                  "no warning that file {} is left out: {}", f, defs)
        if w["nowhere"]:
            for word in ("output variable nowhere1", "output file " + os.path.join(root, "nowhere1.nc")):
                check(any("Skipping " + word in m for m in defs), "no warning 'Skipping {}': {} ({})", word, defs, w["nowhere"])
            stt.event("nowhere")
            if written:
                stt.nt()
        for n, f in written.items():
            check(not any("Skipping output file" in m and f in m for m in defs),
                  "a warning that file {} is left out, which is not: {}", f, defs)
        for o in outvars:
            if o["name"] not in skipped:
                check(not any(re.search(r"Skipping output variable %s\b" % re.escape(o["name"]), m) for m in defs),
                      "a warning that variable {} is left out, which is not: {}", o["name"], defs)
    if lost and written:
        stt.nt()
    if lost:
        stt.event("files left out")
    if w["nodef"]:
        stt.event("without a definition")
        if written:
            stt.nt()
    if gone & {v["name"] for v in w["invars"] if v.get("coord")}:
        stt.event("coordinate missing")


def known(w, n):
    """is the variable in some file"""
    return any(n in W.file_vars(w, f, True) for f in W.own_files(w))


PROP = Prop(
    "C21",
    [Sub("missing", cases, run, quick=500)],
    rule="data flows whose input files lack (or call differently) 0-3 of the variables the definitions "
    "need, coordinates included, or whose specification lacks definitions (absent, empty or blank; refused if other variables name them) or has one with a variable that is nowhere (below operators, in arguments and in keywords): the files that need them and "
    "only those are left out, with warnings naming them, and the others are complete and correct; "
    "non-trivial: some files are left out or variables undefined, and other files are written",
)
