"""Hash-consed value-graph nodes.

A Node is an immutable term ``(op, args)``; equal terms are the same object.
Nothing here evaluates code of the analysed package: nodes only *describe* the
value a source expression denotes, as a function of the parameters ('sym').
"""
from fractions import Fraction
import itertools

_table = {}
_uid = itertools.count()


class Node:
    __slots__ = ("op", "args", "id", "memo")

    def __repr__(self):
        return show(self, 6)


def mk(op, *args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.id, n.memo = op, args, next(_uid), {}
        _table[key] = n
    return n


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else NINF
        # decimal literals are kept exact ("0.067" is 67/1000)
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


NAN = mk("nan")
INF = mk("inf", 1)
NINF = mk("inf", -1)
TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
ZERO = num(0)
ONE = num(1)
PI = mk("pi")
EUL = mk("euler")


def sym(name):
    return mk("sym", name)


def string(s):
    return mk("str", s)


def boolean(b):
    return TRUE if b else FALSE


def opaque(reason, *deps):
    return mk("opq", next(_uid), reason, *[d for d in deps if isinstance(d, Node)])


def isnum(n):
    return isinstance(n, Node) and n.op == "num"


def isconst(n):
    return isinstance(n, Node) and n.op in ("num", "nan", "inf", "bool", "none", "str", "pi", "euler")


BOOLOPS = {"bool", "cmp", "and", "or", "not", "isnan", "isinf", "any", "all", "streq"}


def is_boolish(n):
    """syntactically boolean-valued"""
    if n.op in BOOLOPS:
        return True
    if n.op == "sel":
        return is_boolish(n.args[1]) and is_boolish(n.args[2])
    return False


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    # absorb: a and (a and c)
    if b.op == "and" and (b.args[0] is a or b.args[1] is a):
        return b
    if a.op == "and" and (a.args[0] is b or a.args[1] is b):
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    if not_(a) is b:
        return TRUE
    return mk("or", a, b)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # nested same condition
    if a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("sel", c, a, b)


# ---------------------------------------------------------------- traversal
def children(n):
    return [a for a in n.args if isinstance(a, Node)]


def walk(n, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def syms(n):
    """set of parameter names the term mentions"""
    m = n.memo.get("syms")
    if m is not None:
        return m
    order = []
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if "syms" in x.memo:
            continue
        if done:
            if x.op == "sym":
                r = frozenset([x.args[0]])
            else:
                r = frozenset().union(*[c.memo["syms"] for c in children(x)]) if children(x) else frozenset()
            x.memo["syms"] = r
        else:
            st.append((x, True))
            for c in children(x):
                if "syms" not in c.memo:
                    st.append((c, False))
    return n.memo["syms"]


def has_op(n, *ops):
    return any(x.op in ops for x in walk(n))


def opaques(n):
    return [x for x in walk(n) if x.op == "opq"]


# ---------------------------------------------------------------- printing
_BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**"}


def fnum(f):
    if isinstance(f, Fraction):
        if f.denominator == 1:
            return str(f.numerator)
        d = float(f)
        return repr(d) if Fraction(repr(d)) == f else f"{d:.10g}"
    return f"{f:.10g}"


def show(n, depth=12):
    if not isinstance(n, Node):
        return str(n)
    if depth <= 0:
        return "..."
    o, a = n.op, n.args
    d = depth - 1
    if o == "num":
        return fnum(a[0])
    if o in ("nan", "pi", "none", "euler"):
        return o
    if o == "inf":
        return "inf" if a[0] > 0 else "-inf"
    if o in ("sym", "bool"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o in _BIN:
        return f"({show(a[0], d)} {_BIN[o]} {show(a[1], d)})"
    if o == "neg":
        return f"(-{show(a[0], d)})"
    if o == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "sel":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o in ("fn", "ext", "red"):
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if o == "opq":
        return f"<?{a[1]}>"
    if o == "bv":
        return f"_{a[0]}"
    return f"{o}({', '.join(show(x, d) for x in a)})"
