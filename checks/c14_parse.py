"""C14: a definition text means what the documented grammar says"""
import itertools

from hypothesis import strategies as st

from pbt import refparser as R
from pbt.core import Discard, Prop, Sub, check

from pyconform.parsing import parse_definition

NAMES = ["a", "b", "T", "x1", "_h", "lat_bnds", "e5", "E", "mean", "if", "time"]


@st.composite
def number(draw):
    txt = draw(
        st.sampled_from(
            ["0", "1", "2", "3", "7", "10", "007", "0.5", ".5", "2.", "1e3", "1E-2", "2.5e+1",
             "1.e2", ".25E1", "100", "273.15", "86400"]
        )
    )
    isf = any(c in txt for c in ".eE")
    return {"n": float(txt) if isf else int(txt), "txt": txt}


@st.composite
def string(draw):
    q = draw(st.sampled_from("\"'"))
    body = draw(
        st.lists(
            st.sampled_from(["a", "lat", " ", "days since 1-1-1", "(", ")", ",", "=", "K",
                             "\\" + q, "\\\\", "*", "W m-2", "'" if q == '"' else '"', "[0]", "é"]),
            max_size=4,
        )
    )
    return {"s": "".join(body), "q": q}


def trees(depth=4):
    @st.composite
    def index(draw, sub):
        if draw(st.booleans()):
            return draw(sub)
        p = st.one_of(st.none(), sub)
        return {"sl": [draw(p), draw(p), draw(p)]}

    @st.composite
    def variable(draw, sub):
        return {"v": draw(st.sampled_from(NAMES)),
                "i": draw(st.lists(index(sub), max_size=3)) if draw(st.booleans()) else []}

    @st.composite
    def function(draw, sub):
        arg = st.one_of(sub, sub, string())
        kws = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=2))
        return {"f": draw(st.sampled_from(NAMES)), "a": draw(st.lists(arg, max_size=3)),
                "k": [[k, draw(arg)] for k in kws]}

    @st.composite
    def op(draw, sub):
        key = draw(st.sampled_from(["-1", "-1", "+", "-", "-", "*", "/", "/", "**", "**", "**", "<",
                                    ">", "<=", ">=", "=="]))
        if key == "-1":
            return {"o": "-", "a": [draw(sub)]}
        return {"o": key, "a": [draw(sub), draw(sub)]}

    plain = st.builds(lambda n: {"v": n, "i": []}, st.sampled_from(NAMES))
    leaf = st.one_of(plain, plain, number())
    lvl = leaf
    for _ in range(depth - 1):
        lvl = st.one_of(leaf, op(lvl), op(lvl), op(lvl), function(lvl), variable(lvl))
    return st.one_of(op(lvl), op(lvl), op(lvl), op(lvl), op(op(lvl)), function(op(lvl)), variable(lvl))


@st.composite
def cases(draw):
    return {
        "tree": draw(trees()),
        "extra": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=12)),
        "spaces": draw(st.lists(st.sampled_from(["", "", "", " ", "  ", "\t"]), min_size=1, max_size=6)),
    }


def text_of(case):
    toks = R.render(case["tree"], itertools.cycle(case["extra"] + [0]))[0]
    return R.join_tokens(toks, itertools.cycle(case["spaces"]))


def strip(t):
    if isinstance(t, dict):
        return {k: strip(v) for k, v in t.items() if k not in ("txt", "q")}
    if isinstance(t, list):
        return [strip(x) for x in t]
    return t


def alike(t):
    """strings with other blanks and other case, names in another case"""
    if isinstance(t, dict):
        t = {k: alike(v) for k, v in t.items()}
        if "s" in t:
            t["s"] = t["s"].replace(" ", "").swapcase() if " " in t["s"] else t["s"] + " "
        return t
    if isinstance(t, list):
        return [alike(x) for x in t]
    return t


def run(case, stt):
    text = text_of(case)
    try:
        want = R.foldtree(strip(case["tree"]))
    except R.Lax as e:
        raise Discard(str(e))
    # the two halves of the reference model have to agree with each other
    ref = R.parse(text)
    if not R.same(ref, want):
        raise RuntimeError("reference model inconsistent: {!r} {} {}".format(text, ref, want))
    try:
        got = R.encode(parse_definition(text))
    except TypeError as err:
        check(False, "valid definition {!r} rejected: {}", text, err)
    check(R.same(got, want), "definition {!r} parsed as {} instead of {}", text, got, want)
    # what has been parsed before does not matter
    other = R.join_tokens(R.render(alike(case["tree"]), itertools.cycle(case["extra"] + [0]))[0], itertools.cycle(case["spaces"]))
    if other != text:
        stt.event("with a definition much like it")
        want2 = R.foldtree(strip(alike(case["tree"])))
        if not R.same(R.parse(other), want2):
            raise RuntimeError("reference model inconsistent: {!r}".format(other))
        try:
            got = R.encode(parse_definition(other))
        except TypeError as err:
            check(False, "valid definition {!r} rejected: {}", other, err)
        check(R.same(got, want2), "definition {!r}, after {!r}, parsed as {} instead of {}", other, text, got, want2)
    again = R.encode(parse_definition(text))
    check(R.same(again, want), "definition {!r} parsed differently the second time", text)
    ops = []

    def walk(t):
        if isinstance(t, dict):
            if "o" in t:
                ops.append(t["o"] + str(len(t["a"])))
            for v in t.values():
                walk(v)
        elif isinstance(t, list):
            for v in t:
                walk(v)

    walk(case["tree"])
    stt.event("operators: {}".format(min(len(ops), 5)))
    if "**2" in ops and "-1" in ops:
        stt.event("power and negation")
    stt.nt(len(set(ops)) >= 2)


PROP = Prop(
    "C14",
    [Sub("tree", cases, run, quick=6000)],
    rule="random expression trees (numbers, indexed variables, function calls with positional, "
    "keyword and string arguments, every operator) rendered to text with the necessary and some "
    "redundant parentheses and random white space, and parsed again after the same definition with other strings; non-trivial: at least two different operators",
)
