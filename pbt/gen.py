"""Shared generators and the encoding of indices in JSON cases"""
from hypothesis import strategies as st


# -- index expressions:  int -> int;  [a, b, c] -> slice;  "..." -> Ellipsis -------------
def dec_one(i):
    if isinstance(i, list):
        return slice(*i)
    if i == "...":
        return Ellipsis
    return i


def dec_index(idx):
    """decode a JSON index expression: list of parts -> tuple"""
    return tuple(dec_one(i) for i in idx)


@st.composite
def one_slice(draw, n, steps=(None, 1, -1, 2, -2, 3, -3)):
    step = draw(st.sampled_from(steps))
    if draw(st.integers(0, 3)) == 0 or n < 2:
        # anything at all: out of bounds, empty, reversed
        lim = n + 2
        b = st.one_of(st.none(), st.integers(-lim, lim))
        return [draw(b), draw(b), step]
    # mostly slices that select something
    lo = draw(st.integers(0, n - 1))
    hi = draw(st.integers(lo, n - 1))
    if step is not None and step < 0:
        beg, end = hi, lo - 1
        beg = draw(st.sampled_from([beg, beg - n] + ([None] if beg == n - 1 else [])))
        end = None if end < 0 else draw(st.sampled_from([end, end - n]))
    else:
        beg, end = lo, hi + 1
        beg = draw(st.sampled_from([beg, beg - n] + ([None] if beg == 0 else [])))
        end = draw(st.sampled_from([end, end - n if end < n else None]))
    return [beg, end, step]


@st.composite
def one_index(draw, n, oob=False):
    if n > 0 and draw(st.integers(0, 3)) == 0:
        return draw(st.integers(-n, n - 1))
    if oob and draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from([n, -n - 1, n + 1]))
    return draw(one_slice(n))


@st.composite
def index_for(draw, shape, oob=False, ellipsis=True, full=False):
    """an index expression for an array of this shape, as a list of parts"""
    nd = len(shape)
    k = nd if full else draw(st.integers(0, nd))
    if ellipsis and draw(st.integers(0, 3)) == 0:
        pre = draw(st.integers(0, k))
        parts = [draw(one_index(shape[j], oob)) for j in range(pre)]
        parts.append("...")
        for j in range(nd - (k - pre), nd):
            parts.append(draw(one_index(shape[j], oob)))
        return parts
    return [draw(one_index(shape[j], oob)) for j in range(k)]


LONG = [8, 11, 13, 26]


def lengthen(draw, sizes, odds=10):
    """sizes by name, now and then one of them longer than a few"""
    if sizes and draw(st.integers(0, odds - 1)) == odds - 1:
        d = draw(st.sampled_from(sorted(sizes)))
        return dict(sizes, **{d: draw(st.sampled_from(LONG))})
    return dict(sizes)
