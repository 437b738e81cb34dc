"""
Reference model of the definition language (independent of ply and of PyConform's grammar).

AST encoding (JSON-able):
  number                    -> {"n": 3} / {"n": 1.5} / {"n": true}
  variable                  -> {"v": name, "i": [index...]}
  function                  -> {"f": name, "a": [arg...], "k": [[name, arg]...]}
  operator (1 or 2 args)    -> {"o": key, "a": [..]}
  string                    -> {"s": text}
  slice (index only)        -> {"sl": [a, b, c]}
"""
import re

BINPREC = {"==": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "**": 6}
NEG = 5

TOK = re.compile(
    r"[ \t]*(?:"
    r"(?P<flt>(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+)"
    r"|(?P<int>[0-9]+)"
    r"|(?P<str>\"[^\"\\]*(?:\\.[^\"\\]*)*\"|'[^'\\]*(?:\\.[^'\\]*)*')"
    r"|(?P<name>[a-zA-Z_][a-zA-Z0-9_]*)"
    r"|(?P<op>\*\*|<=|>=|==|[-*/+<>=,:()\[\]])"
    r")"
)


class Reject(Exception):
    """the text is not a definition"""


class Lax(Exception):
    """the language does not say (constant folding fails, empty leading argument)"""


def tokenize(text):
    pos = 0
    out = []
    end = len(text.rstrip(" \t"))
    while pos < end:
        m = TOK.match(text, pos)
        if m is None:
            raise Reject("lex")
        kind = m.lastgroup
        out.append((kind, m.group(kind)))
        pos = m.end()
    return out


def isnum(t):
    return "n" in t


def fold(op, args):
    """apply an operator; operators on constants only are evaluated at once"""
    if not all(isnum(a) for a in args):
        return {"o": op, "a": args}
    v = [a["n"] for a in args]
    try:
        if len(v) == 1:
            r = -v[0]
        elif op == "**":
            if abs(v[0]) > 1e6 or abs(v[1]) > 64:
                raise Lax("huge power")
            r = v[0] ** v[1]
        elif op == "-":
            r = v[0] - v[1]
        elif op == "+":
            r = v[0] + v[1]
        elif op == "*":
            r = v[0] * v[1]
        elif op == "/":
            r = v[0] / v[1]
        elif op == "<":
            r = v[0] < v[1]
        elif op == ">":
            r = v[0] > v[1]
        elif op == "<=":
            r = v[0] <= v[1]
        elif op == ">=":
            r = v[0] >= v[1]
        elif op == "==":
            r = v[0] == v[1]
    except ArithmeticError:
        raise Lax("constant arithmetic fails")
    if isinstance(r, complex):
        raise Lax("complex constant")
    return {"n": r}


class Parser(object):
    def __init__(self, text):
        self.t = tokenize(text)
        self.p = 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else (None, None)

    def isop(self, s, k=0):
        return self.peek(k) == ("op", s)

    def eat(self, s):
        if not self.isop(s):
            raise Reject("expected " + s)
        self.p += 1

    def parse(self):
        r = self.expr(0)
        if self.p != len(self.t):
            raise Reject("trailing")
        return r

    def expr(self, minprec):
        """precedence climbing; every binary operator groups to the left"""
        if self.isop("-"):
            self.p += 1
            left = fold("-", [self.expr(NEG)])
        elif self.isop("+"):
            self.p += 1
            left = self.expr(NEG)
        else:
            left = self.atom()
        while True:
            kind, op = self.peek()
            if kind != "op" or op not in BINPREC:
                return left
            prec = BINPREC[op]
            if prec < minprec:
                return left
            self.p += 1
            right = self.expr(prec + 1)
            left = fold(op, [left, right])

    def atom(self):
        kind, val = self.peek()
        if kind == "flt":
            self.p += 1
            return {"n": float(val)}
        if kind == "int":
            self.p += 1
            return {"n": int(val)}
        if kind == "op" and val == "(":
            self.p += 1
            r = self.expr(0)
            self.eat(")")
            return r
        if kind != "name":
            raise Reject("atom")
        self.p += 1
        if self.isop("("):
            self.p += 1
            return self.call(val)
        if self.isop("["):
            self.p += 1
            idx = [self.index()]
            while self.isop(","):
                self.p += 1
                idx.append(self.index())
            self.eat("]")
            return {"v": val, "i": idx}
        return {"v": val, "i": []}

    def iskw(self):
        return self.peek()[0] == "name" and self.isop("=", 1)

    def argument(self):
        kind, val = self.peek()
        if kind == "str":
            self.p += 1
            return {"s": val[1:-1]}
        return self.expr(0)

    def call(self, name):
        args, kwds = [], {}
        if self.isop(")"):
            self.p += 1
            return {"f": name, "a": [], "k": []}
        if self.isop(","):
            raise Lax("empty first argument")
        inkw = False
        while True:
            if self.iskw():
                inkw = True
                k = self.peek()[1]
                self.p += 2
                kwds[k] = self.argument()
            elif inkw:
                raise Reject("positional after keyword")
            else:
                args.append(self.argument())
            if self.isop(","):
                self.p += 1
                continue
            self.eat(")")
            return {"f": name, "a": args, "k": sorted([k, v] for k, v in kwds.items())}

    def sliceend(self):
        return self.peek() in (("op", ":"), ("op", ","), ("op", "]"))

    def index(self):
        parts = []
        seen = 0
        while True:
            parts.append(None if self.sliceend() else self.expr(0))
            if self.isop(":"):
                self.p += 1
                seen += 1
                if seen > 2:
                    raise Reject("colons")
                continue
            break
        if seen == 0:
            if parts[0] is None:
                raise Reject("empty index")
            return parts[0]
        return {"sl": (parts + [None, None])[:3]}


def parse(text):
    return Parser(text).parse()


# ---------------------------------------------------------------------------------------
def encode(obj):
    """PyConform's AST -> the JSON encoding"""
    from pyconform.parsing import FuncType, OpType, VarType

    if isinstance(obj, VarType):
        return {"v": obj.key, "i": [encode(i) for i in obj.ind]}
    if isinstance(obj, FuncType):
        return {
            "f": obj.key,
            "a": [encode(a) for a in obj.args],
            "k": sorted([k, encode(v)] for k, v in obj.kwds.items()),
        }
    if isinstance(obj, OpType):
        return {"o": obj.key, "a": [encode(a) for a in obj.args]}
    if isinstance(obj, slice):
        return {"sl": [None if i is None else encode(i) for i in (obj.start, obj.stop, obj.step)]}
    if isinstance(obj, str):
        return {"s": obj}
    return {"n": obj}


def same(a, b):
    """equality of encodings, with number types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def foldtree(t):
    """the tree the parser should give for a raw tree (constants evaluated)"""
    if "o" in t:
        return fold(t["o"], [foldtree(a) for a in t["a"]])
    if "f" in t:
        return {"f": t["f"], "a": [foldtree(a) for a in t["a"]],
                "k": sorted([k, foldtree(v)] for k, v in t["k"])}
    if "v" in t:
        return {"v": t["v"], "i": [foldtree(i) for i in t["i"]]}
    if "sl" in t:
        return {"sl": [None if i is None else foldtree(i) for i in t["sl"]]}
    return t


def render(t, extra):
    """
    Tokens of a raw tree, with only the parentheses the precedences make necessary, plus
    redundant ones wherever the iterator `extra` says so.
    Returns (tokens, precedence, ends_with_bare_unary)
    """

    def paren(toks):
        return ["("] + toks + [")"]

    if "n" in t:
        r = ([t.get("txt") or repr(t["n"])], 9, False)
    elif "s" in t:
        q = t.get("q", '"')
        return ([q + t["s"] + q], 9, False)
    elif "sl" in t:
        a, b, c = t["sl"]
        toks = [] if a is None else render(a, extra)[0]
        toks = toks + [":"] + ([] if b is None else render(b, extra)[0])
        if c is not None or next(extra):
            toks = toks + [":"] + ([] if c is None else render(c, extra)[0])
        return (toks, 9, False)
    elif "v" in t:
        toks = [t["v"]]
        if t["i"]:
            toks.append("[")
            for k, i in enumerate(t["i"]):
                toks += ([","] if k else []) + render(i, extra)[0]
            toks.append("]")
        r = (toks, 9, False)
    elif "f" in t:
        toks = [t["f"], "("]
        first = True
        for a in t["a"]:
            toks += ([] if first else [","]) + render(a, extra)[0]
            first = False
        for k, a in t["k"]:
            toks += ([] if first else [","]) + [k, "="] + render(a, extra)[0]
            first = False
        r = (toks + [")"], 9, False)
    elif len(t["a"]) == 1:
        toks, prec, _ = render(t["a"][0], extra)
        if prec < NEG:
            toks = paren(toks)
        r = (["-"] + toks, NEG, True)
    else:
        p = BINPREC[t["o"]]
        lt, lp, lu = render(t["a"][0], extra)
        if lp < p or (lu and p > NEG):
            lt, lu = paren(lt), False
        rt, rp, ru = render(t["a"][1], extra)
        unary = "o" in t["a"][1] and len(t["a"][1]["a"]) == 1 and rp == NEG
        if rp <= p and not unary:
            rt, ru = paren(rt), False
        r = (lt + [t["o"]] + rt, p, ru)
    if next(extra):
        r = (paren(r[0]), 9, False)
    return r


def join_tokens(toks, spaces):
    """text of a token list; `spaces` gives the white space before each token"""
    out = ""
    prev = ""
    for t in toks:
        sp = next(spaces)
        if not sp and prev and (prev[-1:].isalnum() or prev[-1] in "_.") and (
            t[0].isalnum() or t[0] in "_."
        ):
            sp = " "
        # two operator characters that would fuse into another operator
        if not sp and prev and (prev[-1] + t[0]) in ("**", "<=", ">=", "=="):
            sp = " "
        out += sp + t
        prev = t
    return out + next(spaces)
