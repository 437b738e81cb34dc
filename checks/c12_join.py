"""C12: two consecutive indexings collapse into one equivalent indexing"""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Prop, Sub, check
from pbt.gen import dec_index, index_for

from pyconform.indexing import align_index, index_tuple, join


@st.composite
def cases(draw):
    shape = draw(st.lists(
        st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 0, 14]), min_size=0, max_size=4))
    i1 = draw(index_for(shape, oob=True))
    # the sizes left after the first index (when it is in range)
    try:
        rest = np.empty(shape)[dec_index(i1)].shape
    except IndexError:
        rest = ()
    i2 = draw(index_for(list(rest), oob=True))
    # more indices than dimensions, or more dots than one
    odd = draw(st.integers(0, 39))
    if odd < 2 and shape and (odd == 0 or rest):
        i = [i1, i2][odd]
        n = len([shape, rest][odd])
        if draw(st.booleans()):
            i[:] = (i + ["...", "..."])[-n - 2:] if draw(st.booleans()) else ["..."] + i + ["..."]
        while draw(st.booleans()) or (len(i) <= n + i.count("...") and i.count("...") < 2):
            i.insert(draw(st.integers(0, len(i))), draw(st.sampled_from([0, 0, -1, [None, None, None], [0, 1, None]])))
    return {"shape": shape, "i1": i1, "i2": i2}


def bare(idx):
    """one-element index expressions are also passed without their tuple"""
    return idx


def run(case, stt):
    shape = tuple(case["shape"])
    a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    i1, i2 = dec_index(case["i1"]), dec_index(case["i2"])
    try:
        b = a[i1]
        want = b[i2] if np.ndim(b) else b
        err = False
    except IndexError:
        err = True
    try:
        i12 = join(shape, i1, i2)
        raised = None
    except IndexError as e:
        raised = e
    if err:
        stt.event("out of range")
        if len(i1) > len(shape) + i1.count(Ellipsis):
            stt.event("too many indices")
        check(
            raised is not None,
            "A[i1][i2] is out of range, but join({}, {}, {}) gave {}",
            shape, i1, i2, None if raised else i12,
        )
        stt.nt()
        return
    check(
        raised is None,
        "join({}, {}, {}) raised {!r} for indices that are in range",
        shape, i1, i2, raised,
    )
    got = a[i12]
    check(
        np.shape(got) == np.shape(want) and np.array_equal(got, want),
        "A[i1][i2] differs from A[join(shape, i1, i2)]: shape={}, i1={}, i2={}: "
        "join gave {}; {} instead of {}",
        shape, i1, i2, i12, np.asarray(got).tolist(), np.asarray(want).tolist(),
    )
    if a.size and np.size(want) == 0:
        stt.event("empty result")
    if np.size(want) > 1 and np.size(want) < a.size:
        stt.event("proper part")
    sl = [i for i in np.index_exp[i1] + np.index_exp[i2] if isinstance(i, slice)]
    if any((s.step or 1) < 0 for s in sl):
        stt.event("negative step")
    if any(isinstance(i, int) for i in np.index_exp[i2]):
        stt.event("integer second index")
    stt.nt(len(shape) > 0 and (i1 not in ((), Ellipsis)) and i2 not in ((), Ellipsis))


@st.composite
def align_cases(draw):
    ndim = draw(st.integers(0, 4))
    shape = draw(st.lists(st.integers(1, 6), min_size=ndim, max_size=ndim))
    kind = draw(st.sampled_from(["dict", "tuple", "none"]))
    if kind == "dict":
        dims = ["d%d" % k for k in range(ndim)] + ["x"]
        keys = draw(st.lists(st.sampled_from(dims), unique=True))
        idx = {k: draw(index_for([shape[int(k[1:])] if k != "x" else 3],
                                 ellipsis=False, full=True))[0] for k in keys}
    elif kind == "tuple":
        idx = draw(index_for(shape))
    else:
        idx = None
    return {"shape": shape, "kind": kind, "idx": idx}


def run_align(case, stt):
    shape = tuple(case["shape"])
    dims = tuple("d%d" % k for k in range(len(shape)))
    a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    if case["kind"] == "none":
        got = align_index(None, dims)
        check(len(got) == len(dims), "align_index(None) must index every axis: {}", got)
        if shape:
            check(
                a[got].shape == (0,) * len(shape),
                "the null index must select nothing on every axis, got {}", got,
            )
        return
    if case["kind"] == "dict":
        idx = {k: dec_index([v])[0] for k, v in case["idx"].items()}
        got = align_index(idx, dims)
        want = a[tuple(idx.get(d, slice(None)) for d in dims)]
        stt.nt(len(idx) > 1)
    else:
        idx = dec_index(case["idx"])
        got = align_index(idx, dims)
        if len(shape):
            check(
                got == index_tuple(idx, len(shape)),
                "align_index and index_tuple disagree on {} over {}", idx, dims,
            )
        want = a[idx] if len(shape) else a
        stt.nt(len(shape) > 1)
    check(len(got) == len(dims), "aligned index {} does not cover {}", got, dims)
    res = a[got]
    check(
        np.shape(res) == np.shape(want) and np.array_equal(res, want),
        "aligned index {} of {} on {} selects something else", got, idx, dims,
    )


PROP = Prop(
    "C12",
    [
        Sub("join", cases, run, quick=12000, desc="A[i1][i2] == A[join(shape, i1, i2)]"),
        Sub("align", align_cases, run_align, quick=4000,
            desc="index expressions line up with named dimensions"),
    ],
    rule="random shapes (0-4 axes of length 0-9) and pairs of index expressions (integers, "
    "slices of any sign and step, Ellipsis, missing trailing axes, out of range values, now and then too many); "
    "non-trivial: both indices really select, or one is out of range",
)
