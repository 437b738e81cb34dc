"""C15: malformed definitions are rejected with an error, and never influence later parsing"""
import re

from hypothesis import strategies as st

from checks.c14_parse import cases as good_cases
from checks.c14_parse import text_of
from pbt import refparser as R
from pbt.core import Prop, Sub, check

from pyconform.parsing import parse_definition

TOKENS = ["(", ")", "[", "]", ",", ":", "=", "==", "+", "-", "*", "/", "**", "<", "<=", ">", "a",
          "f", "1", "2.5", '"s"', "'", '"', "!", "$", ".", "\n", "@", "{", "}", "\\", "%", "k=", "e"]


@st.composite
def mutated(draw):
    text = text_of(draw(good_cases()))
    for _ in range(draw(st.integers(1, 3))):
        if not text:
            text = draw(st.sampled_from(TOKENS))
            continue
        i = draw(st.integers(0, len(text)))
        kind = draw(st.sampled_from(["ins", "ins", "del", "rep", "cut", "dup"]))
        if kind == "ins":
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i:]
        elif kind == "del":
            text = text[:i] + text[i + 1:]
        elif kind == "rep":
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i + 1:]
        elif kind == "cut":
            text = text[:i]
        else:
            text = text + text[i:]
    return text


@st.composite
def texts(draw):
    k = draw(st.integers(0, 9))
    if k < 6:
        return draw(mutated())
    if k < 8:
        return "".join(draw(st.lists(st.sampled_from(TOKENS), max_size=7)))
    if k < 9:
        return text_of(draw(good_cases()))
    return draw(st.text(max_size=6))


@st.composite
def cases(draw):
    out = []
    for text in draw(st.lists(texts(), min_size=1, max_size=4)):
        out.append(text)
        # the same text, but for something that is easily taken for meaningless
        for _ in range(draw(st.integers(0, 2))):
            text = draw(st.sampled_from(out))
            how = draw(st.sampled_from(["blank", "blank", "newline", "squeeze", "case", "strip", "comma", "close"]))
            i = draw(st.integers(0, len(text)))
            out.append({"blank": text[:i] + " " + text[i:], "newline": text[:i] + "\n" + text[i:], "squeeze": "".join(text.split()),
                        "case": text.swapcase(), "strip": text.strip("()"), "comma": text[:i] + "," + text[i:], "close": text + ")"}[how])
    return {"texts": out}


def run(case, stt):
    nbad = 0
    for text in case["texts"]:
        if "**" in text and (
            len(re.findall(r"\*\*", text)) > 1 and re.search("[0-9]", text)
            or re.search(r"[0-9]{3}|[eE][+-]?[0-9]", text)
        ):
            # constants are folded while parsing: 10**10**10**10 is no input to judge
            stt.event("skipped: towers of constants")
            continue
        try:
            want = R.parse(text)
        except R.Reject:
            want = None
        except R.Lax:
            # constant folding fails or the grammar is silent: only a clean outcome counts
            stt.event("unspecified")
            try:
                parse_definition(text)
            except (TypeError, ArithmeticError):
                pass
            continue
        except RecursionError:
            continue
        try:
            got = R.encode(parse_definition(text))
            err = None
        except Exception as e:
            err = e
        if want is None:
            nbad += 1
            stt.event("malformed")
            check(
                err is not None,
                "malformed definition {!r} was accepted (after {})",
                text, case["texts"],
            )
            # (a constant subexpression that can not be evaluated fails before the syntax error)
            check(
                isinstance(err, (TypeError, ArithmeticError)),
                "malformed definition {!r} ended in {!r} instead of a TypeError",
                text, err,
            )
        else:
            stt.event("well-formed")
            check(err is None, "valid definition {!r} rejected: {!r} (after {})",
                  text, err, case["texts"])
            check(R.same(got, want),
                  "definition {!r} parsed as {} instead of {} (after {})",
                  text, got, want, case["texts"])
    stt.nt(nbad > 0 and len(case["texts"]) > 1)


PROP = Prop(
    "C15",
    [Sub("history", cases, run, quick=3000)],
    rule="histories of 1-5 texts: valid definitions, mutations of them (tokens or characters "
    "inserted, deleted, replaced, truncated, repeated) and random text, parsed one after another "
    "in one process; non-trivial: more than one text and at least one of them malformed",
)
