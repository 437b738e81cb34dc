"""C01: written data equal the definition, converted and laid out as specified"""
from hypothesis import strategies as st

from pbt import named as N
from pbt import world as W
from pbt.core import Prop, Sub, check


@st.composite
def cases(draw):
    w = draw(W.worlds(out={"refuse": draw(st.integers(0, 7)) == 0}))
    return w


@st.composite
def empties(draw):
    """nothing along time yet"""
    w = draw(W.worlds(inp={"empty": True, "ndims": (2, 3)},
                      out={"reduce": False, "index": False, "datavars": False, "directions": True}))
    mapped = {d for o in w["outvars"] if o["file"] for d in o["dims"]}
    for d in sorted(mapped):
        if draw(st.integers(0, 3)) == 0:
            w["exec"]["chunks"].append([d, draw(st.integers(1, 3))])
    for o in w["outvars"]:
        if draw(st.integers(0, 3)) == 0 and o["file"]:
            o["attrs"]["valid_min"] = -1e30
            o["attrs"]["valid_max"] = 1e30
    return w


def classify(w, stt):
    for o in w["outvars"]:
        if "tree" not in o or o["file"] is None:
            continue
        t = W.render(o["tree"])
        if any(c in t for c in "+*/("):
            stt.event("computed definition")
            stt.nt()
        if any(f + "(" in t for f in ("mean", "sum", "min", "max")):
            stt.event("reduction")
        if "[" in t:
            stt.event("indexed input")


def run(w, stt):
    env = W.env_of(w)
    refuse = None
    written = {n for name in W.own_files(w) for n in W.file_vars(w, name)}
    for o in w["outvars"]:
        if o["name"] not in written:
            continue
        try:
            W.expected(w, o, env)
        except N.Refuse as r:
            refuse = (o["name"], r)
    with W.scratch() as root:
        W.write_inputs(w, root)
        if refuse is not None:
            stt.event("has to be refused: {}".format(refuse[1]))
            try:
                W.execute(w, root)
            except Exception as err:
                stt.nt()
                return
            check(False, "variable {} can not be converted as asked ({}), but was written: {}",
                  refuse[0], refuse[1], W.dsdict(w, ""))
        W.execute(w, root)
        W.verify_files(w, root, stt, env)
    classify(w, stt)


PROP = Prop(
    "C01",
    [Sub("world", cases, run, quick=1500), Sub("empty", empties, run, quick=200)],
    rule="random input files (1-4 dimensions of size 1-4, f8/f4 and integer data of 1 to 4 bytes, some packed, compressed or of the other byte order, with missing values, units, "
    "positive attributes, 1-3 files) and specifications (1-4 output variables with definitions of "
    "depth up to 2 over variables, constants, indexing, arithmetic and functions; output "
    "dimensions renamed and permuted; units same, convertible, inherited or inconvertible; "
    "double/float/int), executed and read back; non-trivial: some definition is computed, or the "
    "specification has to be refused; the same where the unlimited dimension is still empty",
    assumptions=["cf_units' conversion factors are taken as right", "netCDF4 reads back what it wrote"],
)
