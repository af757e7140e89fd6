"""Abstract interpreter: source -> gated value graph + events.

Every function is evaluated over *terms*: parameters are symbols, branches
become 'sel' gates, calls into the package are inlined, convergence loops
become 'fix' terms.  No code of the package is executed; arithmetic is only
folded when all operands are literals in the source.
"""
import ast
from fractions import Fraction

from .graph import (Node, mk, num, NAN, INF, NINF, TRUE, FALSE, NONE, ZERO, ONE, PI, EUL, sym, string,
                    boolean, opaque, isnum, isconst, is_boolish, not_, and_, or_, sel, walk, syms, show,
                    children, BOOLOPS)
from .frontend import AnalysisBroken

BOOLOPS.update({"bsym"})
BOT = mk("bot")  # "this path does not return" (raises)


class PathDead(Exception):
    pass


# ------------------------------------------------------------------ values
class Tup:
    def __init__(self, items, kind="tuple"):
        self.items, self.kind = list(items), kind

    def __repr__(self):
        return f"{self.kind}{self.items}"


class Dct:
    def __init__(self, d):
        self.d = dict(d)  # key: python const -> value

    def __repr__(self):
        return f"dict{self.d}"


class Fn:
    def __init__(self, module, node, closure=None, qual=None):
        self.module, self.node, self.closure = module, node, closure
        self.qual = qual or f"{module.name}.{getattr(node, 'name', '<lambda>')}"
        self.defaults = None
        self.owner = None    # frame whose local variables the function reads


class Ext:
    """external dotted name (numpy.where, warnings.warn, ...)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class ModVal:
    def __init__(self, module):
        self.module = module


class Meth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Vect:
    def __init__(self, fn, otypes=None):
        self.fn, self.otypes = fn, otypes   # number type of the results: None (that of the first result), "int" or "other"


class Choice:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Rec:
    """record instance (namedtuple / dataclass / SimpleNamespace / DataFrame)"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)


class ClsVal:
    def __init__(self, name, fields, node=None, module=None):
        self.name, self.fields, self.node, self.module = name, fields, node, module


class Event:
    __slots__ = ("kind", "cond", "data", "module", "line", "func", "stack", "inloop")

    def __init__(self, kind, cond, data, module, line, func, stack=(), inloop=False):
        self.kind, self.cond, self.data = kind, cond, data
        self.module, self.line, self.func, self.stack, self.inloop = module, line, func, stack, inloop

    def at(self):
        return f"{self.module}:{self.line} in {self.func}"

    def __repr__(self):
        return f"<{self.kind} {self.data} if {self.cond} @{self.module}:{self.line}>"


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Dct) and isinstance(b, Dct):
        return list(a.d) == list(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.node is b.node and a.closure is b.closure
    return False


def merge(c, a, b):
    """value of 'a if c else b' for arbitrary values"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isinstance(a, Node) and isinstance(b, Node):
        return sel(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, Dct) and isinstance(b, Dct) and list(a.d) == list(b.d):
        return Dct({k: merge(c, a.d[k], b.d[k]) for k in a.d})
    return Choice(c, a, b)


def to_node(v):
    """best term for any value (used when a value enters an uninterpreted op)"""
    if isinstance(v, Node):
        return v
    if isinstance(v, Tup):
        return mk("tup", *[to_node(x) for x in v.items])
    if isinstance(v, Dct):
        return mk("dct", *[x for k, y in v.d.items() for x in (mk("str", repr(k)), to_node(y))])
    if isinstance(v, Ext):
        return mk("extname", v.name)
    if isinstance(v, Fn):
        return mk("fnref", v.qual)
    if isinstance(v, Choice):
        return sel(v.cond, to_node(v.a), to_node(v.b))
    if isinstance(v, Rec):
        return mk("rec", v.cls, *[x for k, y in v.fields.items() for x in (mk("str", k), to_node(y))])
    if isinstance(v, Meth):
        return mk("ext", "." + v.name, to_node(v.obj))
    return opaque(type(v).__name__)


# ------------------------------------------------------------------ arithmetic
def arith(op, a, b):
    if a is BOT or b is BOT:
        return BOT
    if a is NAN or b is NAN:
        if op == "pow" and b is ZERO:
            return ONE
        return NAN
    if a.op == "bool":
        a = ONE if a is TRUE else ZERO
    if b.op == "bool":
        b = ONE if b is TRUE else ZERO
    if isnum(a) and isnum(b):
        x, y = a.args[0], b.args[0]
        if op == "add":
            return num(x + y)
        if op == "sub":
            return num(x - y)
        if op == "mul":
            return num(x * y)
        if op == "div" and y != 0:
            return num(x / y)
        if op == "pow" and y.denominator == 1 and abs(y) < 64 and not (x == 0 and y < 0):
            return num(x ** int(y))
        if op == "floordiv" and y != 0:
            return num(x // y)
        if op == "mod" and y != 0:
            return num(x % y)
    if op == "add":
        if a is ZERO:
            return b
        if b is ZERO:
            return a
    if op == "sub" and b is ZERO:
        return a
    if op == "mul":
        if a is ONE:
            return b
        if b is ONE:
            return a
    if op == "div" and b is ONE:
        return a
    if op == "pow" and b is ONE:
        return a
    if op == "floordiv":
        return mk("fn", "floor", arith("div", a, b))
    if op == "mod":
        return arith("sub", a, arith("mul", b, mk("fn", "floor", arith("div", a, b))))
    return mk(op, a, b)


def neg(a):
    if a is BOT or a is NAN:
        return a
    if isnum(a):
        return num(-a.args[0])
    if a.op == "inf":
        return NINF if a is INF else INF
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


_CMPF = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, "==": lambda x, y: x == y,
         "!=": lambda x, y: x != y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


def compare(op, a, b):
    if a is BOT or b is BOT:
        return BOT
    if a is NAN or b is NAN:
        return boolean(op == "!=")
    ka, kb = a.op, b.op
    if ka == "bool" and kb == "bool":
        return boolean(_CMPF[op](a.args[0], b.args[0]))
    if ka == "bool" and kb != "bool" and is_boolish(b) and op in ("==", "!="):
        return compare(op, b, a)
    if kb == "bool" and is_boolish(a) and op in ("==", "!="):
        t = (b is TRUE) == (op == "==")
        return a if t else not_(a)
    if "none" in (ka, kb):
        if ka == kb:
            return boolean(op in ("==", "<=", ">="))
        if op in ("==", "!="):
            return boolean(op == "!=")
    if "str" in (ka, kb) or "ssym" in (ka, kb):
        if ka == "str" and kb == "str":
            return boolean(_CMPF[op](a.args[0], b.args[0]))
        if ka == "str":
            a, b = b, a
        if op in ("==", "!="):
            if b.op == "str" and a.op == "num":
                return boolean(op == "!=")
            r = mk("streq", a, b)
            return r if op == "==" else not_(r)
    if isnum(a) and isnum(b):
        return boolean(_CMPF[op](a.args[0], b.args[0]))
    if ka == "inf" or kb == "inf":
        if ka == "inf" and kb == "inf":
            return boolean(_CMPF[op](a.args[0], b.args[0]))
        if kb == "inf":  # finite vs +-inf
            return boolean({"<": b is INF, "<=": b is INF, ">": b is NINF, ">=": b is NINF,
                            "==": False, "!=": True}[op])
        return boolean({">": a is INF, ">=": a is INF, "<": a is NINF, "<=": a is NINF,
                        "==": False, "!=": True}[op])
    if a is b:
        return boolean(op in ("==", "<=", ">="))
    if op == ">":
        return mk("cmp", "<", b, a)
    if op == ">=":
        return mk("cmp", "<=", b, a)
    if op == "!=":
        return not_(compare("==", a, b))
    if op == "==":
        # min(x, y) == y says y <= x
        for u, v in ((a, b), (b, a)):
            if u.op == "fn" and u.args[0] in ("min", "max") and len(u.args) == 3 and v in u.args[1:]:
                w = u.args[2] if u.args[1] is v else u.args[1]
                return mk("cmp", "<=", v, w) if u.args[0] == "min" else mk("cmp", "<=", w, v)
    return mk("cmp", op, a, b)


def distribute(f, *vals):
    """apply f to values, pushing Choice / sel-with-nan or string leaves out"""
    for i, v in enumerate(vals):
        if isinstance(v, Choice):
            ra = distribute(f, *vals[:i], v.a, *vals[i + 1:])
            rb = distribute(f, *vals[:i], v.b, *vals[i + 1:])
            return merge(v.cond, ra, rb)
    return f(*vals)


def isnan_(a):
    if a is BOT:
        return BOT
    if a is NAN:
        return TRUE
    if a.op == "sel":
        return merge(a.args[0], isnan_(a.args[1]), isnan_(a.args[2]))
    m = a.memo.get("isnan")
    if m is None:
        # arithmetic propagates NaN: the term is NaN if any operand is
        if a.op in ("add", "sub", "mul", "div", "pow", "neg") or (a.op == "fn" and a.args[0] not in ("fmin", "fmax")):
            m = FALSE
            for c in children(a):
                m = or_(m, isnan_(c))
        else:
            m = FALSE
        a.memo["isnan"] = m
    return m


def truth(a):
    if not isinstance(a, Node):
        if isinstance(a, Tup):
            return boolean(len(a.items) > 0)
        if isinstance(a, Dct):
            return boolean(len(a.d) > 0)
        return TRUE
    if is_boolish(a) or a is BOT:
        return a
    if a.op == "num":
        return boolean(a.args[0] != 0)
    if a.op in ("nan", "inf", "pi", "tup", "fnref", "rec"):
        return TRUE
    if a.op == "none":
        return FALSE
    if a.op == "str":
        return boolean(bool(a.args[0]))
    if a.op == "sel":
        return merge(a.args[0], truth(a.args[1]), truth(a.args[2]))
    if a.op in ("ssym",):
        return mk("truth", a)
    if a.op in ("verdict",):
        return mk("truth", a)
    return not_(compare("==", a, ZERO))


BOOLOPS.update({"truth"})

# ------------------------------------------------------------------ numpy model
_FN1 = {"exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "arctan": "arctan",
        "arcsin": "arcsin", "arccos": "arccos", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "atan": "arctan",
        "asin": "arcsin", "acos": "arccos", "floor": "floor", "ceil": "ceil", "sign": "sign", "fabs": "abs",
        "abs": "abs", "absolute": "abs", "rint": "rint", "trunc": "trunc", "log10": "log10", "log2": "log2",
        "expm1": "expm1", "log1p": "log1p", "arctanh": "arctanh", "isfinite": "isfinite"}
_ID1 = {"asarray", "array", "atleast_1d", "float64", "float", "asanyarray", "ascontiguousarray", "squeeze", "ravel",
        "copy", "double", "float32", "array_equiv", "asfarray", "real", "nan_to_num_", "sort_"}
_BIN2 = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow",
         "float_power": "pow", "pow": "pow"}
_CMP2 = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}
REDUCE = {"max", "min", "sum", "mean", "prod", "amax", "amin", "nanmax", "nanmin", "median", "nansum", "nanmean",
          "std", "average", "cumsum", "argmin", "argmax", "ptp", "var", "norm"}
KNOWN_PURE = {"numpy", "math", "builtins", "operator", "functools", "itertools", "typing"}


def unsigned(n):
    """n or -n, whichever has no leading minus"""
    if n.op == "neg":
        return unsigned(n.args[0])
    if n.op == "num" and n.args[0] < 0:
        return num(-n.args[0])
    if n.op in ("mul", "div"):
        a, b = unsigned(n.args[0]), unsigned(n.args[1])
        if a is not n.args[0] or b is not n.args[1]:
            return arith(n.op, a, b)
    return n


def fn1(name, a):
    if a is BOT or a is NAN:
        return a
    if name in ("abs", "cos", "cosh") and isinstance(a, Node):
        a = unsigned(a)
    if name == "isfinite":
        return not_(isnan_(a))
    if name == "expm1":
        return arith("sub", fn1("exp", a), ONE)
    if name == "log1p":
        return fn1("log", arith("add", ONE, a))
    if name == "log10":
        return arith("div", fn1("log", a), mk("fn", "log", num(10)))
    if name == "log2":
        return arith("div", fn1("log", a), mk("fn", "log", num(2)))
    if isnum(a):
        v = a.args[0]
        if name == "abs":
            return num(abs(v))
        if name == "floor":
            return num(v.numerator // v.denominator)
        if name == "ceil":
            return num(-((-v.numerator) // v.denominator))
        if name == "exp" and v == 0 or name in ("cos", "cosh") and v == 0:
            return ONE
        if name in ("sin", "tan", "sinh", "tanh", "arctan", "arcsin") and v == 0:
            return ZERO
        if name == "log" and v == 1:
            return ZERO
        if name == "sign":
            return num((v > 0) - (v < 0))
    if name == "abs" and a.op == "inf":
        return INF
    return mk("fn", name, a)


def minmax(kind, a, b, nan="prop"):
    """kind min/max"""
    if a is BOT or b is BOT:
        return BOT
    if nan == "ignore":
        if a is NAN:
            return b
        if b is NAN:
            return a
        if a.op == "sel" and (a.args[1] is NAN or a.args[2] is NAN):
            return merge(a.args[0], minmax(kind, a.args[1], b, nan), minmax(kind, a.args[2], b, nan))
        if b.op == "sel" and (b.args[1] is NAN or b.args[2] is NAN):
            return merge(b.args[0], minmax(kind, a, b.args[1], nan), minmax(kind, a, b.args[2], nan))
    elif a is NAN or b is NAN:
        return NAN
    if a is b:
        return a
    if isnum(a) and isnum(b):
        f = min if kind == "min" else max
        return num(f(a.args[0], b.args[0]))
    if a.op == "inf":
        return (b if (a is INF) == (kind == "min") else a)
    if b.op == "inf":
        return (a if (b is INF) == (kind == "min") else b)
    if a.id > b.id:
        a, b = b, a
    return mk("fn", kind, a, b)


# ------------------------------------------------------------------ interpreter
class Frame:
    def __init__(self, fn, env, interp):
        self.fn, self.env, self.args = fn, env, dict(env)
        self.returns = []  # (cond, value)
        self.loops = []  # stack of loop frames
        self.cur = env   # local variables at the statement being executed


class LoopFrame:
    def __init__(self):
        self.breaks, self.continues = [], []  # (cond, env)


class Config:
    def __init__(self, array=False, unroll=64, max_rec=6, max_depth=60):
        self.array, self.unroll, self.max_rec, self.max_depth = array, unroll, max_rec, max_depth


class Result:
    def __init__(self, value, events):
        self.value, self.events = value, events


def lift(n, depth=0):
    """integer expression over a case distinction between constants: the case distinction between the results, or None"""
    if depth > 4 or n.op not in ("fn", "add", "sub", "mul", "neg") or n.op == "fn" and n.args[0] not in ("min", "max", "abs", "floor", "trunc"):
        return None
    kids = [x for x in n.args if isinstance(x, Node)]
    for k in kids:
        t = k if k.op == "sel" else lift(k, depth + 1)
        if t is not None and t.op == "sel":
            out = []
            for leaf in (t.args[1], t.args[2]):
                new = [leaf if x is k else x for x in n.args]
                if n.op in ("add", "sub", "mul"):
                    m = arith(n.op, *new)
                elif n.op == "fn" and new[0] in ("min", "max"):
                    m = minmax(new[0], *new[1:])
                elif n.op == "fn":
                    m = fn1(new[0], *new[1:])
                else:
                    m = neg(*new)
                out.append(lift(m, depth) or m)
            return sel(t.args[0], *out)
    return None


def whole(n, inputs=False):
    """may the value have an integer dtype: whole constants (and, for a prototype, inputs) under +, -, *, min, max"""
    if n.op == "num":
        return n.args[0].denominator == 1
    if n.op in ("bool", "not", "and", "or", "lt", "le", "eq", "isnan"):
        return True
    if n.op == "sym":
        return inputs
    if n.op in ("add", "sub", "mul", "neg", "min", "max", "abs"):
        return all(whole(x, inputs) for x in n.args if isinstance(x, Node))
    if n.op == "sel":
        return all(whole(x, inputs) for x in n.args[1:])
    return False


def int_type(e):
    """is the dtype expression e certainly a whole-number type"""
    s = ast.unparse(e).strip("'\"")
    return s.rpartition(".")[2].rstrip("_") in ("int", "intp", "intc", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
                                                "uint64", "i4", "i8", "integer", "short", "long", "longlong")


def int_literal(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        e = e.operand
    return isinstance(e, ast.Constant) and type(e.value) is int


def mixed_types(fn):
    """may a function return a whole-number literal on one path and another value on another path?"""
    def ev(e, env):
        if int_literal(e):
            return {"int"}
        if isinstance(e, ast.Name):
            return set(env.get(e.id, {"other"}))
        if isinstance(e, ast.IfExp):
            return ev(e.body, env) | ev(e.orelse, env)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = ev(e.left, env), ev(e.right, env)
            return {"int"} if a == b == {"int"} else {"other"} if "int" not in a or "int" not in b else {"int", "other"}
        return {"other"}
    out = set()

    def names(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def block(body, env):
        for st in body:
            if env is None:
                return None
            if isinstance(st, ast.Return):
                if st.value is not None:
                    out.update(ev(st.value, env))
                return None
            if isinstance(st, (ast.Raise, ast.Break, ast.Continue)):
                return None if isinstance(st, ast.Raise) else env
            if isinstance(st, ast.Assign):
                v = ev(st.value, env)
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        env = {**env, tg.id: v}
                    else:
                        env = {**env, **{n: {"other"} for n in names(tg)}}
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                v = {"other"} if isinstance(st, ast.AugAssign) else ev(st.value, env) if st.value else None
                if v and isinstance(st.target, ast.Name):
                    env = {**env, st.target.id: v}
            elif isinstance(st, ast.If):
                env = join(block(st.body, env), block(st.orelse, env))
            elif isinstance(st, (ast.For, ast.While)):
                if isinstance(st, ast.For):
                    env = {**env, **{n: {"other"} for n in names(st.target)}}
                for _ in range(3):
                    env = join(env, block(st.body, env))
                env = block(st.orelse, env)
            elif isinstance(st, ast.With):
                env = block(st.body, env)
            elif isinstance(st, ast.Try):
                env = join(block(st.body, env), *[block(h.body, env) for h in st.handlers])
                if env is not None:
                    env = block(st.orelse + st.finalbody, env)
            elif isinstance(st, ast.Match):
                env = join(env, *[block(c.body, env) for c in st.cases])
        return env

    def join(*envs):
        live = [e for e in envs if e is not None]
        if not live:
            return None
        return {n: set().union(*[e.get(n, set()) for e in live]) for e0 in live for n in e0}
    body = [ast.Return(value=fn.body)] if isinstance(fn, ast.Lambda) else fn.body
    block(body, {})
    return out == {"int", "other"}


STRMETH = {"lower", "upper", "strip", "startswith", "endswith", "split", "format", "title", "capitalize", "replace", "casefold",
           "join", "encode", "lstrip", "rstrip"}


class Interp:
    def __init__(self, program, config=None, extra_programs=()):
        self.programs = [program, *extra_programs]
        self.program = program
        self.cfg = config or Config()
        self.events = []
        self.pc = TRUE
        self.facts = {}
        self.stack = []
        self.memo = {}
        self.mod_loading = set()
        self.intercept_name = {}
        self.intercept = {}  # qualname -> handler(interp, bound args) ; set by users
        self.functions_seen = set()
        self.loopdepth = 0
        self.unknown_ext = {}
        self.steps = 0
        self.mu_arr = {}      # loop-carried variables that hold arrays
        self.arr_cache = {}
        self.elemwise = 0     # inside a function applied per element
        self.nan_calls = set()
        self.kept = []          # nodes made here, kept alive
        self.made = set()       # scalars turned into arrays of one element

    # ---- arrays (only with Config.array: the names of the parameters that hold arrays)
    def arr(self, v):
        """does the term hold one value per element of an array argument"""
        if not self.cfg.array or self.elemwise:
            return False
        if isinstance(v, Tup):
            return any(self.arr(x) for x in v.items)
        if isinstance(v, Choice):
            return self.arr(v.a) or self.arr(v.b)
        if not isinstance(v, Node):
            return False
        r = self.arr_cache.get(v.id)
        if r is None:
            stack = [v]
            while stack:
                x = stack[-1]
                if x.id in self.arr_cache:
                    stack.pop()
                    continue
                if x.op == "sym":
                    r = x.args[0] in self.cfg.array
                elif x.op == "mu":
                    r = self.mu_arr.get(x.id, False)
                elif x.op in ("red", "any", "all", "elem", "mask") or x.op == "ext" and x.args[0] in SHAPEFN:
                    r = False
                elif x.op == "idx":
                    r = False
                elif x.op in ("map",):
                    r = False
                else:
                    todo = [y for y in x.args if isinstance(y, Node) and y.id not in self.arr_cache]
                    if todo:
                        stack += todo
                        continue
                    r = any(self.arr_cache[y.id] for y in x.args if isinstance(y, Node))
                self.arr_cache[x.id] = r
                stack.pop()
            r = self.arr_cache[v.id]
        return r

    def arr_forget(self):
        self.arr_cache = {k: v for k, v in self.arr_cache.items() if v}

    def test_truth(self, v, e, env=None):
        """v, the value of expression e, decides a branch: an array of several elements cannot"""
        if self.cfg.array and not self.elemwise:
            if self.arr(v) or self.nan_leaf(e):
                self.emit("ambiguous", ("truth value of an array", ast.unparse(e)[:80] if e is not None else ""), e)
        return truth_any(v)

    def nan_leaf(self, e):
        if e is None or not self.nan_calls:
            return False
        if isinstance(e, ast.UnaryOp):
            return self.nan_leaf(e.operand)
        if isinstance(e, ast.BoolOp):
            return any(self.nan_leaf(x) for x in e.values)
        return isinstance(e, ast.Call) and (id(e), len(self.stack)) in self.nan_calls

    # ---- modules
    def find_module(self, name):
        for p in self.programs:
            if name in p.modules:
                return p.modules[name]
        return None

    def module_env(self, m):
        if m.env is None:
            m.env = {}
            saved = (self.pc, self.facts, self.stack, self.events)
            self.pc, self.facts, self.events = TRUE, {}, []
            self.stack = []
            fr = Frame(None, m.env, self)
            fr.module = m
            self.stack = [fr]
            for st in m.tree.body:
                try:
                    self.exec_stmt(st, m.env, fr)
                except PathDead:
                    pass
            m.module_events = self.events
            self.pc, self.facts, self.stack, self.events = saved
        return m.env

    @property
    def fr(self):
        return self.stack[-1]

    def emit(self, kind, data, node=None, cond=None):
        fr = self.stack[-1] if self.stack else None
        m = fr.module if fr else None
        e = Event(kind, self.pc if cond is None else cond, data, m.rel if m else "?", getattr(node, "lineno", 0),
                  fr.fn.node.name if fr and fr.fn is not None and hasattr(fr.fn.node, "name") else "<module>",
                  tuple(f.fn.qual for f in self.stack if f.fn is not None), self.loopdepth > 0)
        self.events.append(e)
        return e

    # ---- facts
    def assume(self, c, val):
        """record literals implied by (c == val) in self.facts"""
        if c.op == "not":
            return self.assume(c.args[0], not val)
        self.facts[c.id] = val
        if c.op == "and" and val or c.op == "or" and not val:
            self.assume(c.args[0], val)
            self.assume(c.args[1], val)

    def fold(self, c):
        if c.op == "bool" or not self.facts:
            return c
        f = self.facts.get(c.id)
        if f is not None:
            return boolean(f)
        if c.op == "not":
            return not_(self.fold(c.args[0]))
        if c.op == "and":
            return and_(self.fold(c.args[0]), self.fold(c.args[1]))
        if c.op == "or":
            return or_(self.fold(c.args[0]), self.fold(c.args[1]))
        return c

    # ---- function calls
    def run(self, qual, args):
        """analyse one function with the given parameter bindings (dict name->value)"""
        mod, _, name = qual.rpartition(".")
        m = self.find_module(mod)
        if m is None:
            raise AnalysisBroken(f"function {qual} not found")
        env = self.module_env(m)
        fn = env.get(name)
        if not isinstance(fn, Fn):
            if name not in m.functions:
                raise AnalysisBroken(f"function {qual} not found")
            fn = Fn(m, m.functions[name])
        self.events, self.pc, self.facts, self.stack = [], TRUE, {}, []
        self.loopdepth = 0
        try:
            v = self.call_fn(fn, [], dict(args), None)
        except PathDead:
            v = BOT
        return Result(v, self.events)

    def bind(self, fn, args, kwargs, site):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        env = {}
        err = None
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(pos):])
                args = args[:len(pos)]
            else:
                err = f"takes {len(pos)} positional arguments, {len(args)} given"
                args = args[:len(pos)]
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in env and k in pos and pos.index(k) < len(args):
                err = f"got multiple values for argument {k!r}"
            elif k in pos or k in kwo:
                if k in [x.arg for x in a.posonlyargs]:
                    err = f"positional-only argument {k!r} passed as keyword"
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = Dct(extra)
        elif extra:
            err = f"unexpected keyword argument(s) {sorted(extra)}"
        # defaults
        if fn.defaults is None:
            fn.defaults = {}
            denv = fn.closure if fn.closure is not None else self.module_env(fn.module)
            for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
                    (n, d) for n, d in zip(kwo, a.kw_defaults) if d is not None]:
                saved = (self.pc, self.facts, self.stack)
                f = Frame(fn, denv, self)
                f.module = fn.module
                self.pc, self.facts, self.stack = TRUE, {}, [f]
                try:
                    fn.defaults[n] = self.ev(d, denv)
                except PathDead:
                    fn.defaults[n] = opaque("default")
                self.pc, self.facts, self.stack = saved
        for n in pos + kwo:
            if n not in env:
                if n in fn.defaults:
                    env[n] = fn.defaults[n]
                else:
                    err = err or f"missing required argument {n!r}"
                    env[n] = opaque("missing " + n)
        return env, err

    def call_fn(self, fn, args, kwargs, site):
        if fn.qual in self.intercept:
            return self.intercept[fn.qual](self, fn, args, kwargs, site)
        if self.intercept_name and fn.closure is None and fn.qual.rpartition(".")[2] in self.intercept_name:
            return self.intercept_name[fn.qual.rpartition(".")[2]](self, fn, args, kwargs, site)
        env, err = self.bind(fn, args, kwargs, site)
        if err:
            self.emit("badcall", (fn.qual, err), site)
            raise PathDead
        self.functions_seen.add(fn.qual)
        depth = sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node)
        if depth >= self.cfg.max_rec or len(self.stack) > self.cfg.max_depth:
            prev = [f for f in self.stack if f.fn is not None and f.fn.node is fn.node]
            same = bool(prev) and all(self.same_args(fn, env, f) for f in prev)
            self.emit("recursion", (fn.qual, same), site)
            return mk("ext", "rec:" + fn.qual, *[to_node(v) for v in env.values()])
        key = None
        if fn.closure is None:
            try:
                key = (id(fn.node), tuple((k, self.vkey(v)) for k, v in sorted(env.items())), self.loopdepth > 0,
                       self.elemwise > 0)
            except TypeError:
                key = None
        if key is not None and key in self.memo:
            v, evs, dead = self.memo[key]
        else:
            saved = (self.pc, self.facts, self.events)
            self.pc, self.facts, self.events = TRUE, {}, []
            f = Frame(fn, env, self)
            f.module = fn.module
            self.stack.append(f)
            if fn.closure is not None:
                f.closure = fn.closure
                if fn.owner is not None and any(x is fn.owner for x in self.stack):
                    f.closure = {**fn.closure, **fn.owner.cur}
            dead = False
            try:
                if isinstance(fn.node, ast.Lambda):
                    try:
                        v = self.ev(fn.node.body, env)
                    except PathDead:
                        v, dead = BOT, True
                else:
                    v = self.exec_body(fn.node.body, env, f)
                    dead = v is BOT
                evs = self.events
            finally:
                self.stack.pop()
                self.pc, self.facts, self.events = saved
            if key is not None:
                self.memo[key] = (v, evs, dead)
        pre = tuple(f.fn.qual for f in self.stack if f.fn is not None)
        if self.pc is TRUE and not pre:
            self.events.extend(evs)
        else:
            for e in evs:
                self.events.append(Event(e.kind, and_(self.pc, e.cond), e.data, e.module, e.line, e.func,
                                         e.stack, e.inloop or self.loopdepth > 0))
        if dead:
            raise PathDead
        return v

    def same_args(self, fn, env, frame):
        try:
            return all(k in frame.args and self.vkey(frame.args[k]) == self.vkey(v) for k, v in env.items())
        except TypeError:
            return False

    def vkey(self, v):
        if isinstance(v, Node):
            return v.id
        if isinstance(v, Tup):
            return ("T", v.kind, tuple(self.vkey(x) for x in v.items))
        if isinstance(v, Dct):
            return ("D", tuple((k, self.vkey(x)) for k, x in v.d.items()))
        if isinstance(v, Ext):
            return ("E", v.name)
        if isinstance(v, Fn) and v.closure is None:
            return ("F", id(v.node))
        raise TypeError

    def exec_body(self, stmts, env, fr):
        out = self.exec_block(stmts, env, fr)
        rets = list(fr.returns)
        if out is not None:
            rets.append((self.pc, NONE))
        if not rets:
            return BOT
        v = rets[-1][1]
        for i in range(len(rets) - 2, -1, -1):
            c, x = rets[i]
            # simplify by what earlier returns exclude
            facts = {}
            saved, self.facts = self.facts, facts
            for j in range(i):
                self.assume(rets[j][0], False)
            c = self.fold(c)
            self.facts = saved
            v = merge(c, x, v)
        return v

    # ---- statements
    def exec_block(self, stmts, env, fr):
        """returns env at fall-through or None"""
        for st in stmts:
            try:
                env = self.exec_stmt(st, env, fr)
            except PathDead:
                return None
            if env is None:
                return None
        return env

    def branch(self, c, body, orelse, env, fr, node):
        c = self.fold(c)
        if c is BOT:
            raise PathDead
        if c is TRUE:
            return self.exec_block(body, env, fr)
        if c is FALSE:
            return self.exec_block(orelse, env, fr)
        pc0, facts0 = self.pc, self.facts
        self.facts = dict(facts0)
        self.assume(c, True)
        self.pc = and_(pc0, c)
        ea = self.exec_block(body, dict(env), fr)
        pca, factsa = self.pc, self.facts
        self.facts = dict(facts0)
        self.assume(c, False)
        self.pc = and_(pc0, not_(c))
        eb = self.exec_block(orelse, dict(env), fr)
        pcb, factsb = self.pc, self.facts
        if ea is None and eb is None:
            self.pc, self.facts = pc0, facts0
            return None
        if ea is None:
            self.pc, self.facts = pcb, factsb
            return eb
        if eb is None:
            self.pc, self.facts = pca, factsa
            return ea
        self.facts = facts0
        if pca is and_(pc0, c) and pcb is and_(pc0, not_(c)):
            self.pc = pc0
        else:
            self.pc = or_(pca, pcb)
        return self.merge_env(c, ea, eb)

    def merge_env(self, c, ea, eb):
        out = {}
        for k in list(ea) + [k for k in eb if k not in ea]:
            if k in ea and k in eb:
                out[k] = merge(c, ea[k], eb[k])
            elif k in ea:
                out[k] = merge(c, ea[k], mk("unbound", k))
            else:
                out[k] = merge(c, mk("unbound", k), eb[k])
        return out

    def exec_stmt(self, st, env, fr):
        self.steps += 1
        fr.cur = env
        t = type(st)
        if t is ast.Expr:
            self.ev(st.value, env)
            return env
        if t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                self.assign(tg, v, env)
                self.mark_int(tg, st.value, env)
            return env
        if t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
            return env
        if t is ast.AugAssign:
            cur = self.ev(self._load(st.target), env)
            v = self.binop(type(st.op), cur, self.ev(st.value, env), st)
            self.emit("inplace", (ast.unparse(st.target), cur if isinstance(cur, Node) else None), st)
            self.assign(st.target, v, env)
            return env
        if t is ast.Return:
            v = self.ev(st.value, env) if st.value is not None else NONE
            fr.returns.append((self.pc, v))
            return None
        if t is ast.If:
            c = self.test_truth(self.ev(st.test, env), st.test)
            return self.branch(c, st.body, st.orelse, env, fr, st)
        if t is ast.Raise:
            exc, msg = "?", None
            if st.exc is not None:
                e = st.exc
                if isinstance(e, ast.Call):
                    exc = ast.unparse(e.func)
                    if e.args:
                        try:
                            msg = to_node(self.ev(e.args[0], env))
                        except PathDead:
                            msg = None
                else:
                    exc = ast.unparse(e)
            self.emit("raise", (exc, msg), st)
            return None
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            is_mod = fr.fn is None
            f = Fn(fr.module, st, None if is_mod else env, None if is_mod else f"{fr.fn.qual}.{st.name}")
            f.owner = None if is_mod else fr
            v = f
            for d in reversed(st.decorator_list):
                dv = self.ev(d, env)
                if isinstance(dv, Ext) and dv.name in ("numpy.vectorize",):
                    v = Vect(v)
                elif isinstance(dv, Ext) and dv.name.split(".")[-1] in ("lru_cache", "cache", "njit", "jit", "wraps"):
                    self.emit("decorator", dv.name, st)
                elif isinstance(dv, Fn):
                    try:
                        v = self.call_value(dv, [v], {}, st)
                    except PathDead:
                        v = opaque("decorator")
                elif isinstance(dv, Node) or isinstance(dv, (Ext, Partial)):
                    self.emit("decorator", show(to_node(dv)), st)
            env[st.name] = v
            return env
        if t is ast.ClassDef:
            fields = [(s.target.id, s.value) for s in st.body if isinstance(s, ast.AnnAssign)
                      and isinstance(s.target, ast.Name)]
            env[st.name] = ClsVal(st.name, fields, st, fr.module)
            return env
        if t in (ast.Import, ast.ImportFrom):
            self.do_import(st, env, fr)
            return env
        if t is ast.For:
            return self.exec_for(st, env, fr)
        if t is ast.While:
            return self.exec_while(st, env, fr)
        if t is ast.Break:
            fr.loops[-1].breaks.append((self.pc, dict(env)))
            return None
        if t is ast.Continue:
            fr.loops[-1].continues.append((self.pc, dict(env)))
            return None
        if t is ast.Pass:
            return env
        if t is ast.Global or t is ast.Nonlocal:
            self.emit("global", tuple(st.names), st)
            return env
        if t is ast.Assert:
            c = self.test_truth(self.ev(st.test, env), st.test)
            c = self.fold(c)
            if c is FALSE:
                self.emit("raise", ("AssertionError", None), st)
                return None
            if c is not TRUE:
                self.emit("raise", ("AssertionError", None), st, and_(self.pc, not_(c)))
                self.assume_pc(c)
            return env
        if t is ast.With:
            for it in st.items:
                v = self.ev(it.context_expr, env)
                self.emit("with", show(to_node(v)), st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            return self.exec_block(st.body, env, fr)
        if t is ast.Try:
            return self.exec_try(st, env, fr)
        if t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
                else:
                    self.emit("mutate", ast.unparse(tg), st)
            return env
        if t is ast.Match:
            return self.exec_match(st, env, fr)
        self.emit("unsupported", t.__name__, st)
        return env

    def assume_pc(self, c):
        self.facts = dict(self.facts)
        self.assume(c, True)
        self.pc = and_(self.pc, c)

    def _load(self, target):
        import copy
        n = copy.copy(target)
        n.ctx = ast.Load()
        return n

    def do_import(self, st, env, fr):
        if isinstance(st, ast.Import):
            for a in st.names:
                m = self.find_module(a.name)
                if a.asname:
                    env[a.asname] = ModVal(m) if m else Ext(a.name)
                else:
                    top = a.name.split(".")[0]
                    mt = self.find_module(top)
                    env[top] = ModVal(mt) if mt else Ext(top)
            return
        base = st.module or ""
        if st.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        bm = self.find_module(base)
        for a in st.names:
            sub = self.find_module(f"{base}.{a.name}")
            nm = a.asname or a.name
            if a.name == "*":
                if bm:
                    for k, v in self.module_env(bm).items():
                        if not k.startswith("_"):
                            env[k] = v
                continue
            if sub is not None:
                env[nm] = ModVal(sub)
            elif bm is not None:
                benv = self.module_env(bm)
                if a.name in benv:
                    env[nm] = benv[a.name]
                else:
                    self.emit("badname", f"{base}.{a.name}", st)
                    env[nm] = opaque("import " + a.name)
            else:
                env[nm] = Ext(f"{base}.{a.name}")

    def exec_try(self, st, env, fr):
        n0 = len(self.events)
        pc0, facts0 = self.pc, dict(self.facts)
        pre = dict(env)
        out = self.exec_block(st.body, dict(env), fr)
        if out is not None and st.orelse:
            out = self.exec_block(st.orelse, out, fr)
        raised = FALSE
        if st.handlers:
            for e in self.events[n0:]:
                if e.kind == "raise":
                    raised = or_(raised, e.cond)
                    e.kind = "caught"
                elif e.kind in ("badcall", "unbound"):
                    raised = or_(raised, e.cond)
        pcb = self.pc
        if raised is not FALSE:
            self.pc, self.facts = and_(pc0, raised), facts0
            oh = self.exec_block(st.handlers[0].body, pre, fr)
            self.pc, self.facts = pc0, facts0
            if out is None:
                out = oh
            elif oh is not None:
                out = self.merge_env(raised, oh, out)
        else:
            self.pc, self.facts = (pcb if out is not None else pc0), (self.facts if out is not None else facts0)
            if st.handlers:
                self.emit("handler", ast.unparse(st.handlers[0].type) if st.handlers[0].type else "*", st)
        if st.finalbody and out is not None:
            out = self.exec_block(st.finalbody, out, fr)
        return out

    def exec_match(self, st, env, fr):
        subj = self.ev(st.subject, env)

        def cond(p):
            if isinstance(p, ast.MatchValue):
                return self.cmp_vals("==", subj, self.ev(p.value, env))
            if isinstance(p, ast.MatchSingleton):
                return self.cmp_vals("==", subj, num(p.value) if isinstance(p.value, bool) else NONE)
            if isinstance(p, ast.MatchOr):
                c = FALSE
                for q in p.patterns:
                    c = or_(c, cond(q))
                return c
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    env[p.name] = subj
                return TRUE
            if isinstance(p, (ast.MatchSequence,)) and isinstance(subj, Tup):
                if len(p.patterns) != len(subj.items):
                    return FALSE
                c = TRUE
                for q, s in zip(p.patterns, subj.items):
                    c = and_(c, self._cond1(q, s, env))
                return c
            return opaque("pattern", to_node(subj))

        cases = [(cond(c.pattern), c) for c in st.cases]

        def go(i, env):
            if i == len(cases):
                return env
            c, case = cases[i]
            if case.guard is not None:
                c = and_(c, truth_any(self.ev(case.guard, env)))
            return self.branch_fn(c, lambda e: self.exec_block(case.body, e, fr), lambda e: go(i + 1, e), env)
        return go(0, env)

    def _cond1(self, p, s, env):
        if isinstance(p, ast.MatchValue):
            return self.cmp_vals("==", s, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.cmp_vals("==", s, num(p.value) if isinstance(p.value, bool) else NONE)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                env[p.name] = s
            return TRUE
        return opaque("pattern", to_node(s))

    def branch_fn(self, c, fa, fb, env):
        """like branch but with callables"""
        c = self.fold(c)
        if c is TRUE:
            return fa(env)
        if c is FALSE:
            return fb(env)
        pc0, facts0 = self.pc, self.facts
        self.facts = dict(facts0)
        self.assume(c, True)
        self.pc = and_(pc0, c)
        ea = fa(dict(env))
        pca, factsa = self.pc, self.facts
        self.facts = dict(facts0)
        self.assume(c, False)
        self.pc = and_(pc0, not_(c))
        eb = fb(dict(env))
        pcb, factsb = self.pc, self.facts
        if ea is None and eb is None:
            self.pc, self.facts = pc0, facts0
            return None
        if ea is None:
            self.pc, self.facts = pcb, factsb
            return eb
        if eb is None:
            self.pc, self.facts = pca, factsa
            return ea
        self.facts = facts0
        self.pc = pc0 if (pca is and_(pc0, c) and pcb is and_(pc0, not_(c))) else or_(pca, pcb)
        return self.merge_env(c, ea, eb)

    # ---- loops
    def iter_items(self, v):
        """concrete list of items if statically known"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Dct):
            return [const(k) for k in v.d]
        if isinstance(v, Node) and v.op == "str":
            return [string(c) for c in v.args[0]]
        if isinstance(v, Node) and v.id in self.made and not self.cfg.array:
            return [v]
        return None

    def exec_for(self, st, env, fr):
        it = self.ev(st.iter, env)
        items = self.iter_items(it)
        if self.cfg.array and not self.elemwise and items is None and isinstance(st.target, ast.Name) and lane_iter(it):
            # one pass per element, each element on its own
            e2 = dict(env)
            e2[st.target.id] = LANE
            carried = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if not carried & set(env):
                self.elemwise += 1
                try:
                    out = self.exec_block(st.body, e2, fr)
                finally:
                    self.elemwise -= 1
                if out is not None:
                    return out
        if isinstance(it, Node) and it.op == "ext" and it.args[0] == "range" and all(isnum(x) for x in it.args[1:]):
            r = range(*[int(x.args[0]) for x in it.args[1:]])
            if len(r) <= self.cfg.unroll:
                items = [num(i) for i in r]
        if isinstance(it, Choice):
            return self.branch_fn(it.cond, lambda e: self.for_items(st, self.iter_items(it.a), it.a, e, fr),
                                  lambda e: self.for_items(st, self.iter_items(it.b), it.b, e, fr), env)
        return self.for_items(st, items, it, env, fr)

    def for_items(self, st, items, it, env, fr):
        if items is not None and len(items) <= self.cfg.unroll * 4:
            snap = (len(self.events), self.pc, dict(self.facts), len(fr.returns))
            env0 = dict(env)
            if any(isinstance(x, Node) and x.op == "maybe" for x in items):
                # elements that are there under a condition only
                def setup(x):
                    def go(e):
                        c, v = unguard(x)
                        self.assign(st.target, v, e)
                        e["guard__"] = c
                    return go
                test = ast.copy_location(ast.Name("guard__", ast.Load()), st)
                body = [ast.copy_location(ast.If(test, st.body, []), st)]
                self.kept.append(body)
                return self.unrolled([setup(x) for x in items], body, env, fr, st.orelse)
            out = self.unrolled([(lambda e, x=x: self.assign(st.target, x, e)) for x in items], st.body, env, fr,
                                st.orelse)
            return out
        return self.fix_loop(st, env, fr, it)

    def unrolled(self, setups, body, env, fr, orelse):
        lf = LoopFrame()
        fr.loops.append(lf)
        broke = []
        cur = env
        pc_in, facts_in = self.pc, dict(self.facts)
        for setup in setups:
            if cur is None:
                break
            lf.continues = []
            setup(cur)
            cur = self.exec_block(body, cur, fr)
            for c, e in reversed(lf.continues):
                if cur is None:
                    cur, self.pc = e, c
                else:
                    cur = self.merge_env(self.rel_cond(c, pc_in), e, cur)
                    self.pc = or_(self.pc, c)
        fr.loops.pop()
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, fr)
        for c, e in reversed(lf.breaks):
            if cur is None:
                cur, self.pc = e, c
            else:
                cur = self.merge_env(self.rel_cond(c, pc_in), e, cur)
                self.pc = or_(self.pc, c)
        if lf.breaks or lf.continues:
            self.facts = facts_in
            if not fr.returns:
                self.pc = pc_in
        return cur

    def rel_cond(self, c, pc_in):
        if pc_in is TRUE:
            return c
        saved = self.facts
        self.facts = {}
        self.assume(pc_in, True)
        r = self.fold(c)
        self.facts = saved
        return r

    def exec_while(self, st, env, fr):
        st = plain_while(st)
        # try plain unrolling while the test folds
        snap = (list(self.events), self.pc, dict(self.facts), list(fr.returns))
        e = dict(env)
        ok = False
        for _ in range(self.cfg.unroll):
            try:
                fr.cur = e
                c = self.fold(self.test_truth(self.ev(st.test, e), st.test))
            except PathDead:
                break
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            lf = LoopFrame()
            fr.loops.append(lf)
            e2 = self.exec_block(st.body, e, fr)
            fr.loops.pop()
            if lf.breaks or lf.continues or e2 is None:
                break
            e = e2
        if ok:
            return self.exec_block(st.orelse, e, fr) if st.orelse else e
        self.events, self.pc, self.facts, fr.returns = snap
        return self.fix_loop(st, env, fr, None)

    def fix_loop(self, st, env, fr, it):
        if not self.cfg.array or self.elemwise:
            return self.fix_loop1(st, env, fr, it)
        marks = set()
        for _ in range(6):
            snap = (list(self.events), self.pc, dict(self.facts), list(fr.returns))
            self.loop_marks = marks
            self.loop_new = None
            post = self.fix_loop1(st, env, fr, it)
            new = self.loop_new
            if new is None or new <= marks:
                return post
            marks = marks | new
            self.events, self.pc, self.facts, fr.returns = snap
        return post

    def fix_loop1(self, st, env, fr, it):
        """model a data-dependent loop"""
        assigned = assigned_names(st)
        carried = [v for v in assigned if v in env and isinstance(env[v], (Node, Tup))]
        if isinstance(st, ast.For):
            target = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            carried = [v for v in carried if v not in target]
            assigned = list(assigned) + sorted(target - set(assigned))
        uid = mk("loopid", len(self.stack), getattr(st, "lineno", 0), id(st) % 1000003, self.steps)
        menv = dict(env)
        mus = {}
        for v in carried:
            if isinstance(env[v], Node):
                mus[v] = mk("mu", uid, v)
                menv[v] = mus[v]
            else:
                mus[v] = mk("mu", uid, v)
                menv[v] = mus[v]
        for v in assigned:
            if v in env and v not in carried:
                menv[v] = opaque("loop " + v)
        if self.cfg.array and not self.elemwise:
            self.arr_forget()
            for v in carried:
                self.mu_arr[mus[v].id] = self.arr(env[v]) or v in self.loop_marks
            self.arr_forget()
        pc0, facts0, ev0 = self.pc, self.facts, len(self.events)
        self.facts = dict(facts0)
        nret = len(fr.returns)
        lf = LoopFrame()
        self.loopdepth += 1
        test = TRUE
        dead = False
        elem = None
        try:
            if isinstance(st, ast.While):
                fr.cur = menv
                test = self.fold(self.test_truth(self.ev(st.test, menv), st.test))
            else:
                elem = mk("elem", to_node(it))
                if isinstance(it, Node) and it.op == "ext" and it.args[0] in ("zip", "enumerate"):
                    if it.args[0] == "zip":
                        ev = Tup([mk("elem", a) for a in it.args[1:]])
                    else:
                        ev = Tup([mk("counter", uid), mk("elem", it.args[1])])
                    self.assign(st.target, ev, menv)
                elif isinstance(it, Node) and it.op == "ext" and it.args[0] == "range":
                    self.assign(st.target, mk("counter", uid), menv)
                else:
                    self.assign(st.target, elem, menv)
        except PathDead:
            dead = True
        fr.loops.append(lf)
        entry = self.pc
        if not dead:
            if test is not TRUE:
                self.assume(test, True)
            out = self.exec_block(st.body, dict(menv), fr)
        else:
            out = None
        endpc = self.pc if out is not None else FALSE
        for c, _ in lf.continues:
            endpc = or_(endpc, c)
        fr.loops.pop()
        for c, e in reversed(lf.continues):
            out = e if out is None else self.merge_env(c, e, out)
        self.loopdepth -= 1
        self.pc, self.facts = pc0, facts0
        inner_returns = fr.returns[nret:]
        del fr.returns[nret:]
        breakc = FALSE
        benv = None
        for c, e in reversed(lf.breaks):
            cc = self.rel_cond(c, pc0)
            breakc = or_(breakc, cc)
            benv = e if benv is None else self.merge_env(cc, e, benv)
        retc, rcs = FALSE, []
        for c, v in inner_returns:
            rcs.append(self.rel_cond(c, pc0))
            retc = or_(retc, rcs[-1])
        own, breakc = breakc, or_(breakc, retc)
        if self.cfg.array and not self.elemwise:
            self.loop_new = {v for v in carried if self.mu_arr[mus[v].id] or out is not None and v in out and self.arr(out[v])}
        self.emit("loop", {"kind": type(st).__name__, "test": test, "break": breakc, "iter": to_node(it) if it is not None
                           else None, "mus": dict(mus), "init": {v: env[v] for v in carried},
                           "step": {v: out[v] for v in carried} if out else {}, "returns": inner_returns,
                           "stmt": st, "body_env": out, "break_env": benv, "endpc": endpc, "pc0": pc0, "uid": uid}, st)
        # -- post-loop values
        system = {}
        for v in carried:
            F = out.get(v) if out is not None else (benv or {}).get(v, mus[v])
            F = to_node(F) if F is not None else mus[v]
            system[v] = F
        conv = self.is_convergence(test, breakc, mus, system, out, benv)
        if conv:
            # at the fixed point an updated variable equals its previous value: name it instead of repeating its update
            first = {}
            for w in carried:
                if system[w].op not in ("mu", "num", "bool", "sym", "inf", "nan") and any(
                        x.op == "mu" for x in walk(system[w])):
                    first.setdefault(system[w].id, w)
            new = {}
            for v in carried:
                w = first.get(system[v].id)
                if w is not None and w != v:
                    new[v] = mus[w]
                    continue
                m = {i: mus[w] for i, w in first.items() if w != v and i != system[v].id}
                new[v] = subst(system[v], m) if m else system[v]
            system = new
        post = dict(env)
        rep = {}
        loopn = {}
        for v in carried:
            if system[v] is mus[v] and (benv is None or benv.get(v) is mus[v]):
                rep[mus[v].id] = env[v] if isinstance(env[v], Node) else to_node(env[v])
        state = [v for v in carried if mus[v].id not in rep]

        def depends(node):
            ids = {x.id for x in walk(node)}
            return [v for v in state if mus[v].id in ids]

        if conv:
            cache = {}

            def fixval(v, active=()):
                if v in cache:
                    return cache[v]
                if v in active:
                    return mus[v]
                body = system[v]
                m = {}
                for w in depends(body):
                    if w != v:
                        m[mus[w].id] = fixval(w, active + (v,))
                body = subst(body, {**rep, **m})
                if any(x is mus[v] for x in walk(body)):
                    if any(x.op == "mu" and x.args[0] is uid and x is not mus[v] for x in walk(body)):
                        r = body  # still coupled to an outer variable
                        return r if active else opaque("coupled", *[env[w] for w in state if isinstance(env[w], Node)])
                    lv = 1 + max([x.args[0] for x in walk(body) if x.op == "bv"], default=-1)
                    r = mk("fix", lv, subst(body, {mus[v].id: mk("bv", lv)}))
                    if active:
                        # inside an elimination the self-cycle stands on its own
                        return r
                else:
                    r = body
                if not active:
                    cache[v] = r
                return r
            for v in state:
                loopn[mus[v].id] = fixval(v)
        else:
            names = sorted(state)
            for v in state:
                parts = []
                for w in names:
                    iv = env[w]
                    parts += [string("init"), to_node(iv), mus_canon(system[w], mus, names)]
                t = mus_canon(test, mus, names)
                b = mus_canon(breakc, mus, names)
                loopn[mus[v].id] = mk("loopv", names.index(v), t, b, to_node(it) if it is not None else NONE,
                                      *[to_node(subst(p, rep)) for p in parts])
        mapping = {**rep, **loopn}
        src = benv if (benv is not None and (out is None or conv)) else out
        if src is None:
            src = menv
        if src is benv and out is not None:
            # set in an earlier pass, after the point where the loop is left
            src = {**{k: v for k, v in out.items() if k in assigned and k not in env and k not in src}, **src}
        for k, val in src.items():
            if k in carried:
                bv = mapping.get(mus[k].id)
                if isinstance(env[k], Node) or bv is not None:
                    if conv and isinstance(val, Node) and benv is not None and k in state and not (
                            out is not None and out.get(k) is val and mapping.get(mus[k].id) is not None):
                        post[k] = subst(val, mapping)
                    else:
                        post[k] = bv
                continue
            if k in assigned or k not in env:
                if isinstance(val, Node):
                    post[k] = subst(val, mapping)
                elif isinstance(val, Tup):
                    post[k] = Tup([subst(to_node(x), mapping) for x in val.items], val.kind)
                else:
                    post[k] = val
        # events inside the loop body refer to the converged state
        for e in self.events[ev0:]:
            if e.kind == "loop":
                continue
            e.cond = and_(pc0, subst(self.rel_cond(e.cond, pc0), mapping)) if e.cond is not TRUE else e.cond
            if isinstance(e.data, dict):
                e.data = {k: subst(x, mapping) if isinstance(x, Node) else x for k, x in e.data.items()}
            elif isinstance(e.data, tuple):
                e.data = tuple(subst(x, mapping) if isinstance(x, Node) else x for x in e.data)
        c = mk("truth", mk("ext", "no break", test, to_node(it) if it is not None else NONE))
        if inner_returns:
            last = {out[v].id: mapping[mus[v].id] for v in carried if out is not None and isinstance(out.get(v), Node)
                    and mus[v].id in mapping and out[v].op not in ("num", "bool", "nan", "none", "str")}

            def final(v):
                if isinstance(v, Tup):
                    return Tup([final(x) for x in v.items], v.kind)
                if isinstance(v, Choice):
                    return Choice(subst(v.cond, mapping), final(v.a), final(v.b))
                if isinstance(v, Dct):
                    return Dct({k: final(x) for k, x in v.d.items()})
                return last[v.id] if isinstance(v, Node) and v.id in last else subst(v, mapping) if isinstance(v, Node) else v
            v = final(inner_returns[-1][1])
            for (_, w), rc in list(zip(inner_returns, rcs))[-2::-1]:
                v = merge(subst(rc, mapping), final(w), v)
            endless = isinstance(st, ast.While) and test is TRUE and own is FALSE
            left = TRUE if endless else not_(c) if own is FALSE else mk("truth", mk("ext", "left by return", test, to_node(it)
                                                                                   if it is not None else NONE))
            fr.returns.append((and_(pc0, left), v))
            if endless:
                return None
            self.assume(left, False)
            self.pc = and_(pc0, not_(left))
        # conditions under which the body's unbound values escape are ignored (>=1 iteration)
        if isinstance(st, (ast.For, ast.While)) and st.orelse:
            if own is FALSE:
                post = self.exec_block(st.orelse, post, fr)
            else:
                post = self.branch(c, st.orelse, [], post, fr, st)
        return post

    def is_convergence(self, test, breakc, mus, system, out, benv):
        """stop test compares two successive iterates"""
        muids = {m.id for m in mus.values()}
        # a stop test on a stored difference: look at the update of the stored variable
        once = {mus[v].id: system[v] for v in mus}
        seen = [test, breakc, subst(test, once), subst(breakc, once)]
        for n in [x for t in seen for x in walk(t)]:
            if n.op == "fn" and n.args[0] == "abs":
                inner = n.args[1]
                if any(x.id in muids for x in walk(inner)):
                    return True
            if n.op == "ext" and n.args[0].split(".")[-1] in ("isclose", "allclose"):
                return True
        # bound without abs: (a - b) > tol with mus on both sides
        return False

    # ---- assignment
    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
            env.pop("\0" + tg.id, None)
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Choice):
                n = len(tg.elts)
                va = self.unpack(v.a, n)
                vb = self.unpack(v.b, n)
                items = [merge(v.cond, x, y) for x, y in zip(va, vb)]
            elif star and isinstance(v, Tup):
                i = star[0]
                k = len(tg.elts) - 1 - i
                items = v.items[:i] + [Tup(v.items[i:len(v.items) - k], "list")] + v.items[len(v.items) - k:]
            else:
                items = self.unpack(v, len(tg.elts), tg)
            for e, x in zip(tg.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
            return
        if isinstance(tg, ast.Subscript):
            base = self.ev(self._load(tg.value), env)
            if isinstance(tg.value, ast.Name) and isinstance(v, Node):
                c = env.get("\0" + tg.value.id)
                if isinstance(c, Node) and c is not FALSE and not whole(v):
                    self.emit("intstore", (ast.unparse(tg), v), tg, and_(self.pc, truth(c)))
            if isinstance(base, Dct) and isinstance(tg.value, ast.Name):
                k = self.ev(tg.slice, env)
                kk = pykey(k)
                if kk is not None:
                    nd = Dct(base.d)
                    nd.d[kk[0]] = v
                    env[tg.value.id] = nd
                    return
            if isinstance(base, Rec) and base.cls == "DataFrame" and isinstance(tg.value, ast.Name):
                kk = pykey(self.ev(tg.slice, env))
                if kk is not None:
                    r = Rec("DataFrame", base.fields)
                    r.ops = getattr(base, "ops", ())
                    r.fields[kk[0]] = v
                    env[tg.value.id] = r
                    return
            self.emit("setitem", (ast.unparse(tg.value), to_node(base), tg.value.id if isinstance(tg.value, ast.Name) else
                                  None), tg)
            if isinstance(tg.value, ast.Name):
                if isinstance(tg.slice, ast.Slice):
                    env[tg.value.id] = to_node(v) if isinstance(v, Node) else v
                    return
                ix = self.ev(tg.slice, env)
                if isinstance(base, Tup) and isnum(ix) if isinstance(ix, Node) else False:
                    it = list(base.items)
                    i = int(ix.args[0])
                    if -len(it) <= i < len(it):
                        it[i] = v
                        env[tg.value.id] = Tup(it, base.kind)
                        return
                if ix is LANE:
                    env[tg.value.id] = v
                    return
                if isinstance(base, Node) and isinstance(ix, Node) and is_boolish(ix):
                    # masked assignment: only elements where the mask holds change
                    env[tg.value.id] = merge(ix, v, base)
                    return
                env[tg.value.id] = mk("ext", "setitem", to_node(base), to_node(ix), to_node(v))
            return
        if isinstance(tg, ast.Attribute):
            base = self.ev(self._load(tg.value), env)
            self.emit("setattr", (ast.unparse(tg), to_node(v)), tg)
            if isinstance(base, Rec) and isinstance(tg.value, ast.Name):
                r = Rec(base.cls, base.fields)
                r.fields[tg.attr] = v
                env[tg.value.id] = r
            return
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, env)

    def mark_int(self, tg, e, env):
        """remember a new array which has the dtype of an input (whole numbers, if the input has whole numbers)"""
        if not (isinstance(tg, ast.Name) and isinstance(e, ast.Call) and e.args or isinstance(tg, ast.Name)
                and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy"):
            return
        f = e.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        makers = ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like")
        dt = [k.value for k in e.keywords if k.arg == "dtype"]
        if not dt and nm in makers and len(e.args) > (2 if nm.startswith("full") else 1):
            dt = [e.args[2 if nm.startswith("full") else 1]]
        if dt:
            if nm in makers and int_type(dt[0]):
                env["\0" + tg.id] = TRUE
            return
        if nm == "full" and len(e.args) == 2 and int_literal(e.args[1]):
            env["\0" + tg.id] = TRUE
            return
        if nm == "copy" and not e.args:
            src = f.value
        elif nm in ("empty_like", "zeros_like", "ones_like", "full_like", "copy", "array", "asarray", "atleast_1d"):
            if len(e.args) > (2 if nm == "full_like" else 1):
                return
            src = e.args[0]
        else:
            return
        n = len(self.events)
        try:
            v = self.ev(src, env)
        except PathDead:
            return
        finally:
            del self.events[n:]
        if isinstance(v, Node) and whole(v, True):
            env["\0" + tg.id] = TRUE

    def unpack(self, v, n, site=None):
        if isinstance(v, Tup):
            if len(v.items) != n:
                self.emit("badcall", ("unpack", f"{len(v.items)} values into {n}"), site)
                raise PathDead
            return v.items
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [merge(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, Rec) and len(v.fields) == n:
            return list(v.fields.values())
        nv = to_node(v)
        if nv.op == "tup" and len(nv.args) == n:
            return list(nv.args)
        return [mk("idx", nv, num(i)) for i in range(n)]

    # ---- expressions
    def ev(self, e, env):
        r = self._ev(e, env)
        if r is BOT:
            raise PathDead
        return r

    def _ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return const(e.value)
        if t is ast.Name:
            return self.lookup(e.id, env, e)
        if t is ast.BinOp:
            return self.binop(type(e.op), self.ev(e.left, env), self.ev(e.right, env), e)
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.USub):
                return distribute(lambda x: bcast1(neg, x), v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                return not_(self.fold(self.test_truth(v, e.operand)))
            if isinstance(e.op, ast.Invert):
                return not_(truth_any(v)) if isinstance(v, Node) else bcast1(lambda x: not_(truth(x)), v) \
                    if isinstance(v, Tup) and v.kind == "array" else opaque("~")
        if t is ast.Compare:
            left = self.ev(e.left, env)
            res = TRUE
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, env)
                c = self.cmp_op(op, left, right)
                if res is not TRUE or len(e.ops) > 1 and r is not e.comparators[-1]:
                    if self.arr(c):
                        self.emit("ambiguous", ("truth value of an array", ast.unparse(e)[:80]), e)
                res = c if res is TRUE else and_(res, c)
                left = right
            return res
        if t is ast.BoolOp:
            return self.boolop(e, env)
        if t is ast.IfExp:
            c = self.fold(self.test_truth(self.ev(e.test, env), e.test))
            if c is TRUE:
                return self.ev(e.body, env)
            if c is FALSE:
                return self.ev(e.orelse, env)
            pc0, f0 = self.pc, self.facts
            self.pc, self.facts = and_(pc0, c), dict(f0)
            self.assume(c, True)
            try:
                a = self.ev(e.body, env)
            except PathDead:
                a = BOT
            self.pc, self.facts = and_(pc0, not_(c)), dict(f0)
            self.assume(c, False)
            try:
                b = self.ev(e.orelse, env)
            except PathDead:
                b = BOT
            self.pc, self.facts = pc0, f0
            if a is BOT and b is BOT:
                return BOT
            return merge(c, a, b)
        if t is ast.Call:
            return self.ev_call(e, env)
        if t is ast.Attribute:
            return self.attr(self.ev(e.value, env), e.attr, e)
        if t is ast.Subscript:
            return self.subscript(self.ev(e.value, env), e.slice, env, e)
        if t is ast.Tuple or t is ast.List or t is ast.Set:
            items = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env)
                    it = self.iter_items(v)
                    items += it if it is not None else [mk("star", to_node(v))]
                else:
                    items.append(self.ev(x, env))
            return Tup(items, "tuple" if t is ast.Tuple else "list")
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    s = self.ev(v, env)
                    if isinstance(s, Dct):
                        d.update(s.d)
                    continue
                kv = pykey(self.ev(k, env))
                d[kv[0] if kv else object()] = self.ev(v, env)
            return Dct(d)
        if t is ast.JoinedStr:
            parts = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(string(p.value))
                else:
                    v = to_node(self.ev(p.value, env))
                    if v.op == "str" and p.format_spec is None:
                        parts.append(v)
                    else:
                        parts.append(mk("fmt", v))
            if all(p.op == "str" for p in parts):
                return string("".join(p.args[0] for p in parts))
            return mk("fstr", *parts)
        if t is ast.Lambda:
            f = Fn(self.fr.module, e, env, f"{self.fr.module.name}.<lambda>")
            f.owner = self.fr if self.fr.cur is env and self.fr.fn is not None else None
            return f
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(e, env)
        if t is ast.DictComp:
            g = e.generators[0]
            items = self.iter_items(self.ev(g.iter, env))
            if items is not None and len(e.generators) == 1:
                d = {}
                for x in items:
                    e2 = dict(env)
                    self.assign(g.target, x, e2)
                    if all(truth_any(self.ev(c, e2)) is TRUE for c in g.ifs):
                        k = pykey(self.ev(e.key, e2))
                        d[k[0] if k else object()] = self.ev(e.value, e2)
                return Dct(d)
            return opaque("dictcomp", to_node(self.ev(g.iter, env)))
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if t is ast.Starred:
            return self.ev(e.value, env)
        if t is ast.Slice:
            return mk("slice")
        self.emit("unsupported", t.__name__, e)
        return opaque(t.__name__)

    def comp(self, e, env):
        def rec(gi, env):
            if gi == len(e.generators):
                return [self.ev(e.elt, env)]
            g = e.generators[gi]
            itv = self.ev(g.iter, env)
            if isinstance(itv, Node) and itv.op == "ext" and itv.args[0] == "range" and all(isnum(x) for x in itv.args[1:]):
                items = [num(i) for i in range(*[int(x.args[0]) for x in itv.args[1:]])][:self.cfg.unroll * 4]
            else:
                items = self.iter_items(itv)
            if items is None:
                e2 = dict(env)
                if isinstance(itv, Node) and itv.op == "ext" and itv.args[0] == "zip":
                    self.assign(g.target, Tup([mk("elem", a) for a in itv.args[1:]]), e2)
                else:
                    self.assign(g.target, mk("elem", to_node(itv)), e2)
                conds = TRUE
                for c in g.ifs:
                    conds = and_(conds, truth_any(self.ev(c, e2)))
                self.loopdepth += 1
                sub = rec(gi + 1, e2)
                self.loopdepth -= 1
                return [mk("map", to_node(itv), conds, to_node(sub[0]))]
            out = []
            for x in items:
                e2 = dict(env)
                keep, x = unguard(x)
                self.assign(g.target, x, e2)
                for c in g.ifs:
                    keep = and_(keep, self.fold(truth_any(self.ev(c, e2))))
                if keep is FALSE:
                    continue
                if keep is TRUE:
                    out += rec(gi + 1, e2)
                else:
                    out.append(mk("maybe", keep, *[to_node(v) for v in rec(gi + 1, e2)]))
            return out
        items = rec(0, env)
        if len(items) == 1 and isinstance(items[0], Node) and items[0].op == "map":
            return items[0]
        return Tup(items, "list")

    def lookup(self, name, env, site):
        v = env.get(name)
        if v is None:
            fr = self.fr
            clo = getattr(fr, "closure", None)
            if clo is not None and name in clo:
                v = clo[name]
            else:
                f = fr.fn
                menv = self.module_env(fr.module) if fr.module.env is None or fr.fn is not None else env
                if name in menv:
                    v = menv[name]
                elif name in BUILTINS:
                    return Ext("builtins." + name)
                else:
                    local = False
                    if f is not None and not isinstance(f.node, ast.Lambda):
                        local = name in local_names(f.node)
                    self.emit("unbound" if local else "badname", name, site)
                    return BOT
        if isinstance(v, Node):
            return self.check_unbound(v, name, site)
        if isinstance(v, Choice):
            return self.choice_unbound(v, name, site)
        return v

    def choice_unbound(self, v, name, site):
        for bad, good, c in ((v.a, v.b, v.cond), (v.b, v.a, not_(v.cond))):
            if isinstance(bad, Node) and bad.op == "unbound":
                f = self.fold(c)
                if f is not FALSE:
                    self.emit("unbound", name, site, and_(self.pc, f))
                return good
        return v

    def check_unbound(self, v, name, site):
        if v.op == "unbound":
            self.emit("unbound", name, site)
            return BOT
        if v.op != "sel" or not any(x.op == "unbound" for x in sel_leaves(v)):
            return v
        c = self.fold(unbound_cond(v))
        if c is not FALSE:
            self.emit("unbound", name, site, and_(self.pc, c))
        return drop_unbound(v)

    def boolop(self, e, env):
        pc0, f0 = self.pc, self.facts
        vals = []
        is_and = isinstance(e.op, ast.And)
        res = None
        self.facts = dict(f0)
        acc = None
        conds = []
        for x in e.values:
            v = self.ev(x, env)
            c = self.fold(self.test_truth(v, x) if x is not e.values[-1] else truth_any(v))
            vals.append(v)
            conds.append(c)
            if c is (FALSE if is_and else TRUE):
                break
            if c is not (TRUE if is_and else FALSE):
                self.assume(c, is_and)
                self.pc = and_(self.pc, c if is_and else not_(c))
        self.pc, self.facts = pc0, f0
        allbool = all(isinstance(v, Node) and is_boolish(v) for v in vals)
        if allbool:
            r = conds[0]
            for c in conds[1:]:
                r = and_(r, c) if is_and else or_(r, c)
            return r
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = merge(c, r, v) if is_and else merge(c, v, r)
        return r

    def cmp_vals(self, op, a, b):
        def f(x, y):
            if isinstance(x, Node) and isinstance(y, Node):
                if op in ("==", "!="):
                    for p, q in ((x, y), (y, x)):
                        if p.op == "sel" and (q.op in ("str", "none", "bool")) :
                            return merge(p.args[0], f(p.args[1], q), f(p.args[2], q))
                return compare(op, x, y)
            if isinstance(x, Tup) and x.kind == "array" or isinstance(y, Tup) and y.kind == "array":
                return bcast2(lambda p, q: compare(op, p, q), x, y)
            if op in ("==", "!="):
                if isinstance(x, Tup) and isinstance(y, Tup):
                    if len(x.items) != len(y.items):
                        return boolean(op == "!=")
                    c = TRUE
                    for p, q in zip(x.items, y.items):
                        c = and_(c, f_eq(p, q))
                    return c if op == "==" else not_(c)
                if isinstance(x, Ext) and isinstance(y, Ext):
                    return boolean((x.name == y.name) == (op == "=="))
            return compare(op, to_node(x), to_node(y))

        def f_eq(p, q):
            return self.cmp_vals("==", p, q)
        return distribute(f, a, b)

    def cmp_op(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            def isf(x, y):
                if isinstance(x, Node) and isinstance(y, Node):
                    for p, q in ((x, y), (y, x)):
                        if p.op == "sel" and q.op in ("none", "bool"):
                            return merge(p.args[0], isf(p.args[1], q), isf(p.args[2], q))
                    if x is y:
                        return TRUE
                    if y is NONE or x is NONE:
                        return FALSE
                    if is_boolish(x) and is_boolish(y):
                        return compare("==", x, y)
                    if isconst(x) and isconst(y):
                        return FALSE
                    return opaque("is", x, y)
                if isinstance(x, Node) and x is NONE or isinstance(y, Node) and y is NONE:
                    return FALSE
                return boolean(same(x, y))
            c = distribute(isf, a, b)
            return c if t is ast.Is else not_(c)
        if t in (ast.In, ast.NotIn):
            c = self.contains(a, b)
            return c if t is ast.In else not_(c)
        names = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
        return self.cmp_vals(names[t], a, b)

    def contains(self, a, b):
        if isinstance(b, Choice):
            return merge(b.cond, self.contains(a, b.a), self.contains(a, b.b))
        items = self.iter_items(b)
        if isinstance(b, Node) and b.op == "str" and isinstance(a, Node):
            if a.op == "str":
                return boolean(a.args[0] in b.args[0])
            return mk("truth", mk("ext", "in", a, b))
        if items is not None:
            c = FALSE
            for x in items:
                c = or_(c, self.cmp_vals("==", a, x))
            return c
        return mk("truth", mk("ext", "in", to_node(a), to_node(b)))

    def binop(self, op, a, b, site):
        names = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow",
                 ast.FloorDiv: "floordiv", ast.Mod: "mod"}

        def f(x, y):
            if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
                def bit(x, y):
                    if op is ast.BitAnd:
                        return and_(truth(x), truth(y))
                    if op is ast.BitOr:
                        return or_(truth(x), truth(y))
                    return or_(and_(truth(x), not_(truth(y))), and_(not_(truth(x)), truth(y)))
                if isinstance(x, Node) and isinstance(y, Node):
                    return bit(x, y)
                if isinstance(x, (Tup, Node)) and isinstance(y, (Tup, Node)) and any(isinstance(z, Tup) and z.kind == "array" for z in (x, y)):
                    return bcast2(bit, x, y)
                return opaque("bit", to_node(x), to_node(y))
            n = names.get(op)
            if n is None:
                return mk("ext", op.__name__, to_node(x), to_node(y))
            if isinstance(x, Tup) or isinstance(y, Tup):
                if n == "add" and isinstance(x, Tup) and isinstance(y, Tup) and "array" not in (x.kind, y.kind):
                    return Tup(x.items + y.items, x.kind)
                if n == "mul" and isinstance(x, Tup) and x.kind == "list" and isinstance(y, Node) and isnum(y):
                    return Tup(x.items * int(y.args[0]), "list")
                return bcast2(lambda p, q: arith(n, p, q), x, y)
            x, y = to_node(x), to_node(y)
            if x.op == "str" and y.op == "str" and n == "add":
                return string(x.args[0] + y.args[0])
            if n == "add" and (x.op in ("str", "fstr") or y.op in ("str", "fstr")):
                return mk("fstr", x, y)
            if x.op == "str" and n == "mod":
                return mk("fstr", x, y)
            if n == "div" and y is ZERO:
                self.emit("zerodiv", (x,), site)
            return arith(n, x, y)
        return distribute(f, a, b)

    def attr(self, v, name, site):
        if isinstance(v, Choice):
            return merge(v.cond, self.attr(v.a, name, site), self.attr(v.b, name, site))
        if isinstance(v, ModVal):
            env = self.module_env(v.module)
            if name in env:
                return env[name]
            sub = self.find_module(v.module.name + "." + name)
            if sub is not None:
                return ModVal(sub)
            self.emit("badname", f"{v.module.name}.{name}", site)
            return BOT
        if isinstance(v, Ext):
            full = f"{v.name}.{name}"
            if full in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
                return NAN
            if full in ("numpy.inf", "math.inf"):
                return INF
            if full in ("numpy.pi", "math.pi"):
                return PI
            if full in ("numpy.e", "math.e"):
                return EUL
            return Ext(full)
        if isinstance(v, Rec):
            if name in v.fields:
                return v.fields[name]
            return Meth(v, name)
        if isinstance(v, Node):
            if v is NONE or name in STRMETH and (v is NAN or isnum(v)):
                self.emit("badname", f"attribute {name} of {'None' if v is NONE else 'a number'}", site)
                return BOT
            if v.op == "sel" and name in STRMETH:
                return merge(v.args[0], self.attr(v.args[1], name, site), self.attr(v.args[2], name, site))
            if name in ("size", "shape", "ndim", "T", "dtype", "real"):
                if not self.arr(v) and name == "size":
                    return ONE
                if name == "ndim":
                    return ONE if self.arr(v) else ZERO
                if name in ("T", "real"):
                    return v
                return mk("ext", "." + name, v)
        if isinstance(v, Tup) and name in ("size", "shape", "ndim") and v.items and \
                all(isinstance(i, Node) and isnum(i) for i in v.items):
            n = num(len(v.items))
            return n if name == "size" else Tup([n]) if name == "shape" else ONE
        return Meth(v, name)

    def subscript(self, v, sl, env, site):
        if isinstance(v, Choice):
            return merge(v.cond, self.subscript(v.a, sl, env, site), self.subscript(v.b, sl, env, site))
        if isinstance(sl, ast.Slice):
            if isinstance(v, Tup):
                def b(x):
                    if x is None:
                        return None
                    n = self.ev(x, env)
                    return int(n.args[0]) if isinstance(n, Node) and isnum(n) else "?"
                lo, hi, stp = b(sl.lower), b(sl.upper), b(sl.step)
                if "?" not in (lo, hi, stp):
                    return Tup(v.items[lo:hi:stp], v.kind)
            elif isinstance(v, Node) and sl.lower is None and sl.upper is None and sl.step is None:
                return v
            elif isinstance(v, Node) and sl.lower is None and sl.upper is None and ast.unparse(sl.step) == "-1" and v.op != "str":
                return mk("ext", "numpy.flip", v)
            return mk("ext", "slice", to_node(v))
        ix = self.ev(sl, env)
        return distribute(lambda i: self.index(v, i, site), ix)

    def index(self, v, ix, site):
        if ix is LANE:
            return v
        if isinstance(v, Dct):
            k = pykey(ix)
            if k is not None:
                if k[0] in v.d:
                    return v.d[k[0]]
                self.emit("raise", ("KeyError", string(str(k[0]))), site)
                return BOT
            n = to_node(ix)
            r = None
            allc = FALSE
            for kk, val in reversed(list(v.d.items())):
                c = self.cmp_vals("==", n, const(kk))
                allc = or_(allc, c)
                r = val if r is None else merge(c, val, r)
            c = self.fold(not_(allc))
            if c is not FALSE:
                self.emit("raise", ("KeyError", n), site, and_(self.pc, c))
            return r if r is not None else BOT
        if isinstance(v, Tup):
            if isinstance(ix, Node):
                if ix.op == "bool":
                    ix = ONE if ix is TRUE else ZERO
                if isnum(ix) and ix.args[0].denominator == 1:
                    i = int(ix.args[0])
                    if -len(v.items) <= i < len(v.items):
                        return v.items[i]
                    self.emit("raise", ("IndexError", ix), site)
                    return BOT
                if ix.op == "sel":
                    pc, out = self.pc, []
                    for c, i in ((ix.args[0], ix.args[1]), (not_(ix.args[0]), ix.args[2])):
                        self.pc = self.fold(and_(pc, c))
                        out.append(self.index(v, i, site) if self.pc is not FALSE else BOT)
                    self.pc = pc
                    return merge(ix.args[0], *out)
                t = lift(ix)
                if t is not None:
                    return self.index(v, t, site)
                if is_boolish(ix) and len(v.items) >= 2 and v.kind != "array":
                    return merge(ix, v.items[1], v.items[0])
        if isinstance(v, Node) and v.op == "tup":
            return self.index(Tup(list(v.args)), ix, site)
        if isinstance(v, Node) and v.op == "sel":
            return merge(v.args[0], self.index(v.args[1], ix, site), self.index(v.args[2], ix, site))
        if isinstance(v, Tup) and isinstance(ix, Tup) and len(v.items) == len(ix.items) and v.items and not self.cfg.array \
                and all(isinstance(x, Node) and is_boolish(x) for x in ix.items) and all(isinstance(x, Node) for x in v.items):
            return Tup(guarded(zip(ix.items, v.items)), v.kind)
        if isinstance(v, Node) and v.id in self.made and not self.cfg.array and isinstance(ix, Node) and is_boolish(ix):
            return Tup(guarded([(ix, v)]), "array")
        if isinstance(v, Node) and isinstance(ix, Node) and is_boolish(ix):
            return v  # boolean-mask selection: element values unchanged
        if isinstance(v, Rec) and v.cls == "DataFrame":
            k = pykey(ix)
            if k and k[0] in v.fields:
                return v.fields[k[0]]
            if isinstance(ix, Tup) and all(pykey(to_node(x)) and pykey(to_node(x))[0] in v.fields for x in ix.items):
                return self.columns(v, ix)
        if isinstance(v, Node) and isinstance(ix, Node) and isnum(ix) and ix.args[0] in (0, -1) and not self.arr(v) \
                and v.op in ("sym", "num", "add", "sub", "mul", "div", "pow", "neg", "fn"):
            return v  # a scalar made into an array of one element
        return mk("idx", to_node(v), to_node(ix))

    # ---- calls
    def ev_call(self, e, env):
        # list mutation through a name
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            base = env.get(e.func.value.id)
            nm = e.func.attr
            if isinstance(base, Tup) and nm in ("append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear"):
                args = [self.ev(a, env) for a in e.args]
                items = list(base.items)
                if nm == "append":
                    items.append(args[0])
                elif nm == "extend" and isinstance(args[0], Tup):
                    items += args[0].items
                elif nm == "insert" and isinstance(args[0], Node) and isnum(args[0]):
                    items.insert(int(args[0].args[0]), args[1])
                elif nm == "pop" and items and not args:
                    r = items.pop()
                    env[e.func.value.id] = Tup(items, base.kind)
                    return r
                elif nm == "reverse":
                    items.reverse()
                else:
                    env[e.func.value.id] = opaque("list." + nm)
                    return NONE
                env[e.func.value.id] = Tup(items, base.kind)
                return NONE
            if isinstance(base, Node) and nm == "sort" and not e.args and not e.keywords and base.op not in ("str", "ext", "opaque"):
                self.emit("mutate", "sort", e)
                env[e.func.value.id] = mk("ext", "numpy.sort", base)
                return NONE
            if isinstance(base, Dct) and nm in ("update", "pop", "setdefault"):
                args = [self.ev(a, env) for a in e.args]
                kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
                nd = Dct(base.d)
                r = NONE
                if nm == "update":
                    if args and isinstance(args[0], Dct):
                        nd.d.update(args[0].d)
                    nd.d.update(kw)
                elif nm == "setdefault" and pykey(args[0]):
                    nd.d.setdefault(pykey(args[0])[0], args[1] if len(args) > 1 else NONE)
                    r = nd.d[pykey(args[0])[0]]
                elif nm == "pop" and pykey(args[0]):
                    r = nd.d.pop(pykey(args[0])[0], args[1] if len(args) > 1 else NONE)
                env[e.func.value.id] = nd
                return r
            if isinstance(base, Node) and base.op == "mu" and nm == "append":
                args = [to_node(self.ev(a, env)) for a in e.args]
                env[e.func.value.id] = mk("ext", "append", base, *args)
                return NONE
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                it = self.iter_items(v)
                if it is None:
                    self.emit("unsupported", "star-args", e)
                    args.append(opaque("star", to_node(v)))
                else:
                    args += it
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct):
                    kwargs.update(v.d)
                else:
                    self.emit("unsupported", "kwargs", e)
            else:
                if k.arg in kwargs:
                    self.emit("badcall", (ast.unparse(e.func), f"repeated keyword {k.arg}"), e)
                kwargs[k.arg] = v
        if isinstance(f, Ext) and f.name.partition(".")[0] == "numpy":
            tg = self.filled(f.name.rpartition(".")[2], e, args)
            if tg is not None and isinstance(env.get(tg.id), Node):
                old, base = env[tg.id], f.name.rpartition(".")[2]
                if base in ("copyto", "putmask", "place"):
                    m = kwargs.get("where", TRUE) if base == "copyto" else args[1]
                    v = args[1] if base == "copyto" else args[2]
                    self.emit("mutate", "out=", e)
                    if whole(old, True) and isinstance(v, Node) and not whole(v):
                        self.emit("intstore", (ast.unparse(e)[:80], v), e)
                    env[tg.id] = distribute(lambda c: merge(truth_any(c), v, old), m)
                    return NONE
                r = self.call_value(f, args[:2], {**kwargs, "out": old}, e)
                if isinstance(r, Node):
                    if whole(old, True) and not whole(r):
                        self.emit("intstore", (ast.unparse(e)[:80], r), e)
                    env[tg.id] = r
                return r
        return self.call_value(f, args, kwargs, e)

    def filled(self, base, e, args):
        """the name whose array a library call fills"""
        t = next((k.value for k in e.keywords if k.arg == "out"), None)
        if t is None and (base == "copyto" and len(args) == 2 or base in ("putmask", "place") and len(args) == 3):
            t = e.args[0]
        if t is None and base in _BIN2 and len(e.args) == 3:
            t = e.args[2]
        return t if isinstance(t, ast.Name) else None

    def call_value(self, f, args, kwargs, site):
        if f is BOT:
            return BOT
        if isinstance(f, Choice):
            pc0, f0 = self.pc, self.facts
            res = []
            for br, c in ((f.a, f.cond), (f.b, not_(f.cond))):
                self.pc, self.facts = and_(pc0, c), dict(f0)
                try:
                    res.append(self.call_value(br, args, kwargs, site))
                except PathDead:
                    res.append(BOT)
            self.pc, self.facts = pc0, f0
            if res[0] is BOT and res[1] is BOT:
                return BOT
            return merge(f.cond, *res)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, site)
        if isinstance(f, Vect):
            self.emit("vectorize", to_node(f.fn), site)
            self.elemwise += 1
            if f.otypes is None and isinstance(f.fn, Fn) and mixed_types(f.fn.node):
                self.emit("intstore", (ast.unparse(site)[:80], NONE), site)
            try:
                r = self.call_value(f.fn, args, kwargs, site)
                return distribute(lambda x: bcast1(lambda y: mk("fn", "trunc", y), x), r) if f.otypes == "int" and r is not BOT else r
            finally:
                self.elemwise -= 1
        if isinstance(f, Partial):
            return self.call_value(f.fn, f.args + args, {**f.kwargs, **kwargs}, site)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs, site)
        if isinstance(f, Meth):
            return self.call_meth(f.obj, f.name, args, kwargs, site)
        if isinstance(f, ClsVal):
            fields = {}
            names = [n for n, _ in f.fields]
            for n, v in zip(names, args):
                fields[n] = v
            fields.update(kwargs)
            for n, d in f.fields:
                if n not in fields and d is not None:
                    fields[n] = self.ev(d, self.module_env(f.module))
            return Rec(f.name, {n: fields[n] for n in names if n in fields} | {k: v for k, v in fields.items() if k not in names})
        if isinstance(f, Node) and f.op == "ntcls":
            names = [a.args[0] for a in f.args[1:]]
            fields = dict(zip(names, args))
            fields.update(kwargs)
            return Rec(f.args[0], fields)
        self.emit("unsupported", "call of unknown value", site)
        return opaque("call", *[to_node(a) for a in args])

    def call_meth(self, obj, name, args, kwargs, site):
        if isinstance(obj, Choice):
            return merge(obj.cond, self.call_meth(obj.a, name, args, kwargs, site),
                         self.call_meth(obj.b, name, args, kwargs, site))
        if isinstance(obj, Dct):
            if name == "items":
                return Tup([Tup([const(k), v]) for k, v in obj.d.items()], "list")
            if name == "keys":
                return Tup([const(k) for k in obj.d], "list")
            if name == "values":
                return Tup(list(obj.d.values()), "list")
            if name == "get":
                k = pykey(args[0])
                dflt = args[1] if len(args) > 1 else NONE
                if k is not None:
                    return obj.d.get(k[0], dflt)
                r = dflt
                for kk, val in reversed(list(obj.d.items())):
                    r = merge(self.cmp_vals("==", args[0], const(kk)), val, r)
                return r
            if name == "copy":
                return Dct(obj.d)
        if isinstance(obj, Tup):
            if name in ("copy", "tolist"):
                return Tup(obj.items, obj.kind)
            if obj.kind == "array" and not any(isinstance(x, Tup) for x in obj.items) and (
                    name in ("ravel", "flatten", "squeeze") and not args and not kwargs
                    or name == "reshape" and [show(to_node(a)) for a in args] == ["-1"]
                    or name == "astype" and isinstance(site, ast.Call) and len(site.args) == 1
                    and ast.unparse(site.args[0]) in ("float", "np.float64", "numpy.float64", "'float'", "'float64'", "object", "np.double")):
                return Tup(obj.items, obj.kind)
            if name in ("min", "max", "sum", "prod", "any", "all", "mean"):
                return self.call_ext("numpy." + name, [obj] + args, kwargs, site)
            if name == "index" and all(isconst(to_node(x)) for x in obj.items) and isinstance(args[0], Node):
                r = None
                for i, x in reversed(list(enumerate(obj.items))):
                    c = self.cmp_vals("==", args[0], x)
                    r = num(i) if r is None else merge(c, num(i), r)
                if r is not None:
                    return r
        if isinstance(obj, Node):
            if obj.op == "str" and name in ("lower", "upper", "strip", "title", "capitalize") and not args:
                return string(getattr(obj.args[0], name)())
            if obj.op == "str" and name == "format":
                return mk("fstr", obj, *[to_node(a) for a in args], *[to_node(v) for v in kwargs.values()])
            if obj.op == "str" and name == "join" and isinstance(args[0], Tup):
                its = [to_node(x) for x in args[0].items]
                if all(x.op == "str" for x in its):
                    return string(obj.args[0].join(x.args[0] for x in its))
                return mk("fstr", obj, *its)
            if name in ("any", "all"):
                return self.call_ext("numpy." + name, [obj], {}, site)
            if name in ("flatten", "ravel") or name == "reshape" and [show(to_node(a)) for a in args] in (["-1"], ["1"]):
                self.made.add(obj.id)
            if name in ("copy", "flatten", "ravel", "astype", "item", "squeeze", "reshape", "tolist", "to_numpy", "__float__"):
                if name in ("item", "__float__") and self.arr(obj):
                    self.emit("ambiguous", (f"{name}() of an array", ast.unparse(site)[:80]), site)
                if name == "astype" and isinstance(site, ast.Call) and (site.args or site.keywords):
                    t = ast.unparse((site.args or [site.keywords[0].value])[0])
                    if "int" in t:
                        return self.call_np("builtins", "builtins.int", "int", [obj], {}, site) if not self.arr(obj) else mk("fn", "trunc", obj)
                    if "bool" in t and not is_boolish(obj):
                        return mk("truth", obj)
                    if "str" in t:
                        return mk("ext", ".astype", obj)
                return obj
            if name == "round":
                return mk("fn", "round", obj, *[to_node(a) for a in args], *[to_node(v) for v in kwargs.values()])
            if name in ("min", "max", "sum", "mean", "prod", "argmin", "argmax", "std"):
                return self.call_ext("numpy." + name, [obj] + args, kwargs, site)
            if name == "clip":
                return self.call_ext("numpy.clip", [obj] + args, kwargs, site)
            if name in ("lower", "upper", "strip", "casefold"):
                return mk("ext", "." + name, obj)
            if name in ("is_integer",):
                return mk("truth", mk("ext", "." + name, obj))
        if isinstance(obj, Rec) and obj.cls == "DataFrame" and name != "to_csv":
            r = Rec("DataFrame", obj.fields)
            r.ops = getattr(obj, "ops", ())
            cs = kwargs.get("columns")
            if name in ("copy", "infer_objects", "convert_dtypes") or name == "reset_index" and kwargs.get("drop") is TRUE and "inplace" not in kwargs:
                return r
            if name == "reindex" and isinstance(cs, Tup) and set(kwargs) == {"columns"} and not args:
                return self.columns(obj, cs)
            if name == "rename" and isinstance(cs, Dct) and set(kwargs) == {"columns"} and not args:
                m = {k: pykey(v) for k, v in cs.d.items()}
                if all(m.values()):
                    r.fields = {m[k][0] if k in m else k: v for k, v in obj.fields.items()}
                    return r
            if name == "sort_index" and "inplace" not in kwargs:
                ax = kwargs.get("axis", args[0] if args else None)
                if ax is not None and (to_node(ax) is num(1) or to_node(ax) is string("columns")):
                    r.fields = {k: obj.fields[k] for k in sorted(obj.fields, key=str)}
                return r
            if name in ("fillna", "drop_duplicates", "dropna", "sort_values", "clip", "replace", "interpolate", "ffill", "bfill") \
                    and kwargs.get("inplace") is TRUE:
                obj.ops = r.ops + (name,)
                return NONE
            if name in ("round", "drop_duplicates", "dropna", "sort_values", "fillna", "abs", "clip", "head", "tail", "sample", "drop",
                        "replace", "nlargest", "nsmallest", "shift", "cumsum", "interpolate", "ffill", "bfill", "rank", "query") \
                    and "inplace" not in kwargs or name == "astype" and isinstance(site, ast.Call) and "int" in ast.unparse(site):
                r.ops = r.ops + (name,)
                return r
            if name == "astype" and isinstance(site, ast.Call) and "float" in ast.unparse(site):
                return r
        if isinstance(obj, Rec) and name == "_replace":
            r = Rec(obj.cls, obj.fields)
            r.fields.update(kwargs)
            return r
        self.emit("method", {"name": name, "obj": to_node(obj), "objv": obj, "args": args, "kwargs": kwargs}, site)
        return mk("ext", "." + name, to_node(obj), *[to_node(a) for a in args],
                  *[x for k, v in sorted(kwargs.items()) for x in (string("=" + k), to_node(v))])

    def call_ext(self, full, args, kwargs, site):
        lib, _, name = full.partition(".")
        base = name.split(".")[-1]
        if lib in ("numpy", "math", "builtins", "operator", "functools"):
            r = self.call_np(lib, name, base, args, kwargs, site)
            if r is not None:
                return r
        if full == "warnings.warn":
            self.emit("warn", {"msg": to_node(args[0]) if args else NONE,
                               "category": to_node(args[1]) if len(args) > 1 else to_node(kwargs.get("category", NONE)),
                               "msgv": args[0] if args else NONE}, site)
            return NONE
        if full == "collections.namedtuple":
            f = args[1]
            names = [x.args[0] for x in f.items] if isinstance(f, Tup) else f.args[0].replace(",", " ").split()
            return mk("ntcls", to_node(args[0]).args[0], *[string(n) for n in names])
        if full == "types.SimpleNamespace":
            return Rec("ns", kwargs)
        if full in ("copy.copy", "copy.deepcopy"):
            return args[0]
        if full == "pandas.DataFrame":
            d = args[0] if args else kwargs.get("data")
            cols = kwargs.get("columns")
            self.emit("extcall", {"name": full, "args": args, "kwargs": kwargs}, site)
            if d is None or d is NONE:
                d = Dct({})
            if isinstance(d, Dct) and len(args) < 3:
                r = Rec("DataFrame", d.d)
                if isinstance(cols, Tup):
                    r = self.columns(r, cols)
                if "dtype" in kwargs and isinstance(site, ast.Call) and any(
                        k.arg == "dtype" and "int" in ast.unparse(k.value) for k in site.keywords):
                    r.ops = ("dtype",)
                return r
        self.emit("extcall", {"name": full, "args": args, "kwargs": kwargs}, site)
        return mk("ext", full, *[to_node(a) for a in args],
                  *[x for k, v in sorted(kwargs.items()) for x in (string("=" + k), to_node(v))])

    def columns(self, df, cols):
        names = [pykey(to_node(x)) for x in cols.items]
        if not all(names):
            return mk("ext", "columns", to_node(df))
        r = Rec("DataFrame", {k[0]: df.fields.get(k[0], NAN) for k in names})
        r.ops = getattr(df, "ops", ())
        return r

    def call_np(self, lib, name, base, args, kwargs, site):
        a0 = args[0] if args else None
        kw = {k: v for k, v in kwargs.items() if k not in ("axis", "dtype", "out", "where", "keepdims", "copy", "casting",
                                                          "otypes", "equal_nan_")}
        if "out" in kwargs:
            self.emit("mutate", "out=", site)
        if base == "reduce" and len(args) == 1 and isinstance(a0, Tup) and a0.items and name.rpartition(".")[0].rpartition(".")[2] \
                in (*_BIN2, "minimum", "maximum", "fmin", "fmax", "logical_and", "logical_or"):
            op, r = name.rpartition(".")[0], a0.items[0]
            for x in a0.items[1:]:
                r = self.call_np(lib, op, op.rpartition(".")[2], [r, x], {}, site)
            return r
        if "where" in kwargs and kwargs["where"] is not TRUE and base not in REDUCE and base not in ("any", "all"):
            m, rest = kwargs["where"], {k: v for k, v in kwargs.items() if k not in ("where", "out")}
            o = kwargs.get("out", NONE)
            if isinstance(o, Tup) and o.items:
                o = o.items[0]
            if o is NONE:
                o = opaque("uninitialised")

            def masked(c):
                c, pc, f0 = truth_any(c), self.pc, self.facts
                self.pc, self.facts = and_(pc, c), dict(f0)
                r = self.call_np(lib, name, base, args, rest, site)
                self.pc, self.facts = pc, f0
                return merge(c, r, o)
            return distribute(masked, m)
        if self.cfg.array and not self.elemwise and base not in ("interp", "searchsorted", "digitize"):
            r = self.array_call(lib, name, base, args, kwargs, site)
            if r is not None:
                return r
        if base in _FN1 and len(args) == 1:
            return distribute(lambda x: bcast1(lambda y: fn1(_FN1[base], y), x), a0)
        if base == "sqrt" and len(args) == 1:
            return distribute(lambda x: bcast1(lambda y: arith("pow", y, num(Fraction(1, 2))), x), a0)
        if base == "cbrt":
            return distribute(lambda x: bcast1(lambda y: arith("pow", y, num(Fraction(1, 3))), x), a0)
        if base == "square":
            return distribute(lambda x: bcast1(lambda y: arith("pow", y, num(2)), x), a0)
        if base == "reciprocal":
            return distribute(lambda x: bcast1(lambda y: arith("div", ONE, y), x), a0)
        if base in ("negative", "neg"):
            return bcast1(neg, a0)
        if base in _BIN2 and len(args) == 2 and lib != "functools":
            return distribute(lambda x, y: bcast2(lambda p, q: arith(_BIN2[base], p, q), x, y), args[0], args[1])
        if base in ("searchsorted", "digitize") and len(args) >= 2:
            tab, x = (args[0], args[1]) if base == "searchsorted" else (args[1], args[0])
            side = kwargs.get("side", args[2] if len(args) > 2 and base == "searchsorted" else None)
            right = base == "digitize" or side is not None and side is string("right")
            if isinstance(tab, Tup) and all(isinstance(i, Node) and isnum(i) for i in tab.items) and isinstance(x, Node) and \
                    (side is None or side.op == "str") and "right" not in kwargs and tab.items == sorted(tab.items, key=lambda i: i.args[0]):
                r = num(len(tab.items))
                for i in reversed(range(len(tab.items))):
                    r = sel(self.cmp_vals("<" if right else "<=", x, tab.items[i]), num(i), r)
                return r
        if base == "interp" and len(args) == 3 and not kwargs and isinstance(args[0], Node) and \
                all(isinstance(t, Tup) and len(t.items) > 1 and all(isinstance(i, Node) and isnum(i) for i in t.items) for t in args[1:]):
            x, xs, fs = args[0], args[1].items, args[2].items
            if len(xs) == len(fs) and all(a.args[0] < b.args[0] for a, b in zip(xs, xs[1:])):
                r = fs[-1]
                for i in reversed(range(len(xs) - 1)):
                    k = num((fs[i + 1].args[0] - fs[i].args[0]) / (xs[i + 1].args[0] - xs[i].args[0]))
                    r = sel(self.cmp_vals("<=", x, xs[i + 1]), arith("add", fs[i], arith("mul", k, arith("sub", x, xs[i]))), r)
                return sel(self.cmp_vals("<", x, xs[0]), fs[0], r)
        if base in ("exp2",):
            return arith("pow", num(2), to_node(a0))
        if base in _CMP2 and len(args) == 2:
            return self.cmp_vals(_CMP2[base], args[0], args[1])
        if base in ("deg2rad", "radians"):
            return distribute(lambda x: bcast1(lambda y: arith("div", arith("mul", y, PI), num(180)), x), a0)
        if base in ("rad2deg", "degrees"):
            return distribute(lambda x: bcast1(lambda y: arith("div", arith("mul", y, num(180)), PI), x), a0)
        if base == "isnan":
            return distribute(lambda x: bcast1(isnan_, x) if isinstance(x, (Node, Tup)) else FALSE, a0)
        if base in ("logical_and", "bitwise_and"):
            return bcast2(lambda p, q: and_(truth(p), truth(q)), args[0], args[1])
        if base in ("logical_or", "bitwise_or"):
            return bcast2(lambda p, q: or_(truth(p), truth(q)), args[0], args[1])
        if base == "logical_not" or base == "invert":
            return bcast1(lambda p: not_(truth(p)), a0)
        if base in ("any", "all"):
            if isinstance(a0, Tup):
                c = FALSE if base == "any" else TRUE
                for x in a0.items:
                    c = or_(c, truth_any(x)) if base == "any" else and_(c, truth_any(x))
                return c
            if isinstance(a0, Node) and a0.op == "map":
                return mk("truth", mk("ext", base, a0))
            c = truth_any(a0)
            if isconst(c) or not self.arr(c):
                if not isconst(c) and not kwargs:
                    self.emit("reduce", (base, c), site)
                return c
            return mk(base, c)
        if base in ("minimum", "maximum", "fmin", "fmax") and len(args) == 2:
            k = "min" if "min" in base else "max"
            nm = "ignore" if base.startswith("f") else "prop"
            return distribute(lambda x, y: bcast2(lambda p, q: minmax(k, p, q, nm), x, y), args[0], args[1])
        if base in ("min", "max", "amin", "amax", "nanmin", "nanmax") and args:
            k = "min" if "min" in base else "max"
            nanm = "ignore" if "nan" in base else "prop"
            items = None
            if len(args) > 1 and lib == "builtins":
                items = args
            elif isinstance(a0, Tup):
                items = a0.items
            if items is not None and items and all(isinstance(x, Node) for x in items):
                r = items[0]
                for x in items[1:]:
                    r = minmax(k, r, x, nanm)
                return r
            if isinstance(a0, Node):
                self.emit("reduce", (base, a0), site)
                return a0
        if base == "clip" and len(args) + len([k for k in kwargs if k in ("a_min", "a_max", "min", "max")]) >= 2:
            vals = list(args) + [kwargs[k] for k in ("a_min", "min") if k in kwargs] + [kwargs[k] for k in ("a_max", "max")
                                                                                       if k in kwargs]
            if len(vals) == 2:
                vals.append(NONE)
            x, lo, hi = vals[:3]
            if all(isinstance(v, Node) for v in vals[:3]):
                r = x
                if lo is not NONE:
                    r = minmax("max", r, lo)
                if hi is not NONE:
                    r = minmax("min", r, hi)
                return r
        if base == "where" and len(args) == 3:
            def w(c, x, y):
                if isinstance(c, Tup) or isinstance(x, Tup) or isinstance(y, Tup):
                    n = max(len(v.items) for v in (c, x, y) if isinstance(v, Tup))
                    g = lambda v, i: v.items[i] if isinstance(v, Tup) else v
                    return Tup([merge(truth(to_node(g(c, i))), g(x, i), g(y, i)) for i in range(n)], "array")
                return merge(truth_any(c), x, y)
            return w(*args)
        if base == "select" and len(args) >= 2 and isinstance(args[0], Tup) and isinstance(args[1], Tup):
            r = args[2] if len(args) > 2 else kwargs.get("default", ZERO)
            for c, v in reversed(list(zip(args[0].items, args[1].items))):
                r = merge(truth_any(c), v, r)
            return r
        if base in ("full_like",) and len(args) == 2:
            if "dtype" not in kwargs and isinstance(a0, Node) and whole(a0, True) and isinstance(args[1], Node) \
                    and not whole(args[1]):
                self.emit("intstore", (ast.unparse(site)[:80], args[1]), site)
            return args[1]
        if base == "full" and len(args) == 2:
            return args[1]
        if base in ("zeros_like",):
            return bcast1(lambda p: ZERO, a0)
        if base in ("ones_like",):
            return bcast1(lambda p: ONE, a0)
        if base in ("empty_like", "empty"):
            return opaque("empty")
        if base in ("broadcast_to",):
            return a0
        if base in ("broadcast_arrays", "atleast_1d") and len(args) > 1:
            return Tup(args, "list")
        if base in ("array", "asarray", "stack", "vstack", "column_stack", "hstack", "concatenate") and isinstance(a0, Tup):
            if len(a0.items) == 1 and not self.arr(a0) and isinstance(a0.items[0], Node) and a0.items[0].op == "map":
                return a0.items[0]
            return Tup(a0.items, "array")
        if base in ("array", "asarray", "asanyarray", "ascontiguousarray", "fromiter") and isinstance(site, ast.Call) and \
                isinstance(a0, (Node, Tup, Choice)):
            dt = [k.value for k in site.keywords if k.arg == "dtype"] or site.args[1:2]
            if dt and int_type(dt[0]):
                return distribute(lambda x: bcast1(lambda y: mk("fn", "trunc", y), x), a0)
            if dt and len(args) == 2:
                return a0
        if base in ("int64", "int32", "int16", "int_", "intp") and lib == "numpy" and len(args) == 1 and isinstance(a0, Node):
            return num(int(a0.args[0])) if isnum(a0) else mk("fn", "trunc", a0)
        if base in ("mod", "remainder") and len(args) == 2 and isinstance(a0, Node) and isinstance(args[1], Node):
            return arith("mod", a0, args[1])
        if base == "fmod" and len(args) == 2 and isinstance(a0, Node) and isinstance(args[1], Node):
            return arith("sub", a0, arith("mul", args[1], mk("fn", "trunc", arith("div", a0, args[1]))))
        if base in ("atleast_1d", "ravel") and len(args) == 1 and isinstance(a0, Node) or base == "array" and "ndmin" in kwargs \
                and isinstance(a0, Node) or base == "reshape" and len(args) == 2 and isinstance(a0, Node) and show(to_node(args[1])) == "-1":
            self.made.add(a0.id)
        if base in ("flatnonzero", "nonzero", "where") and len(args) == 1 and not kwargs and not self.cfg.array:
            m = a0.items if isinstance(a0, Tup) else [a0]
            if all(isinstance(x, Node) and is_boolish(x) for x in m):
                r = Tup(guarded([(c, num(i)) for i, c in enumerate(m)]), "array")
                return r if base == "flatnonzero" else Tup([r])
        if base == "reshape" and len(args) == 2 and isinstance(a0, (Node, Tup)) and show(to_node(args[1])) == "-1" \
                and not (isinstance(a0, Tup) and any(isinstance(x, Tup) for x in a0.items)):
            return a0
        if base in ("atleast_1d", "asarray", "asanyarray", "ravel") and len(args) == 1 and isinstance(a0, Tup) and a0.kind != "array" \
                and not self.cfg.array and a0.items and all(isinstance(x, Node) for x in a0.items):
            return Tup(a0.items, "array")
        if base in _ID1 and len(args) == 1:
            if isinstance(a0, (Node, Tup, Choice)):
                return a0
        if base == "int" and len(args) == 1 and isinstance(a0, Node):
            if isnum(a0):
                return num(int(a0.args[0]))
            return mk("fn", "trunc", a0)
        if base == "bool" and len(args) == 1 or base == "bool_":
            return truth_any(a0)
        if base == "str" and len(args) == 1:
            return mk("fmt", to_node(a0)) if to_node(a0).op != "str" else a0
        if base == "round" or base == "around":
            if len(args) == 1 and isinstance(a0, Node) and isnum(a0) and a0.args[0].denominator == 1:
                return a0
            return mk("fn", "round", *[to_node(a) for a in args], *[to_node(v) for v in kwargs.values()])
        if base == "vectorize":
            ot = next((k.value for k in site.keywords if k.arg == "otypes"), None) if isinstance(site, ast.Call) else None
            if isinstance(ot, (ast.List, ast.Tuple)) and len(ot.elts) == 1:
                ot = ot.elts[0]
            return Vect(a0, None if ot is None else "int" if int_type(ot) or ast.unparse(ot).strip("'\"") in tuple("bhilqp") else "other")
        if base in ("partial",):
            return Partial(a0, args[1:], kwargs)
        if base == "reduce" and lib == "functools" and isinstance(args[1], Tup):
            its = list(args[1].items)
            acc = args[2] if len(args) > 2 else its.pop(0)
            for x in its:
                acc = self.call_value(args[0], [acc, x], {}, site)
            return acc
        if base == "map" and lib == "builtins" and len(args) >= 2:
            its = [self.iter_items(a) for a in args[1:]]
            if all(i is not None for i in its):
                return Tup([self.call_value(args[0], list(x), {}, site) for x in zip(*its)], "list")
            return mk("map", to_node(args[1]), TRUE, to_node(self.call_value(args[0], [mk("elem", to_node(a)) for a in args[1:]], {}, site)))
        if base in ("sum", "prod", "nansum") and args:
            if isinstance(a0, Tup):
                op = "mul" if base == "prod" else "add"
                r = ONE if base == "prod" else ZERO
                if len(args) > 1 and lib == "builtins":
                    r = args[1]
                for x in a0.items:
                    x = to_node(x)
                    if is_boolish(x) and x.op != "bool":
                        x = sel(x, ONE, ZERO)
                    r = arith(op, r, x)
                return r
            self.emit("reduce", (base, to_node(a0)), site)
            return to_node(a0)
        if base in REDUCE and isinstance(a0, (Node, Tup)):
            if base in ("argmin", "argmax"):
                return mk("fn", base, to_node(a0))
            if isinstance(a0, Node):
                self.emit("reduce", (base, a0), site)
                return mk("red", base, a0) if base in ("std", "var", "ptp") else a0
        if base == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1])
        if base == "isscalar":
            return boolean(not self.arr(a0)) if isinstance(a0, Node) and not isconst(a0) else boolean(isinstance(a0, Node))
        if base == "callable":
            return boolean(not isinstance(a0, Node))
        if base == "hasattr":
            return boolean(self.arr(a0)) if isinstance(a0, Node) else opaque("hasattr")
        if base == "len":
            if isinstance(a0, Tup):
                return num(len(a0.items))
            if isinstance(a0, Dct):
                return num(len(a0.d))
            if isinstance(a0, Node) and a0.op == "str":
                return num(len(a0.args[0]))
            return mk("ext", "len", to_node(a0))
        if base == "size" and isinstance(a0, Tup) and a0.items and all(isinstance(i, Node) and isnum(i) for i in a0.items):
            return num(len(a0.items))
        if base == "size" and isinstance(a0, Node):
            return mk("ext", "len", a0) if self.arr(a0) else ONE
        if base == "ndim" and isinstance(a0, Node):
            return ONE if self.arr(a0) else ZERO
        if base == "range":
            if all(isinstance(a, Node) for a in args):
                if all(isnum(a) for a in args):
                    r = range(*[int(a.args[0]) for a in args])
                    if len(r) <= self.cfg.unroll:
                        return Tup([num(i) for i in r], "list")
                return mk("ext", "range", *args)
        if base == "zip":
            its = [self.iter_items(a) for a in args]
            if all(i is not None for i in its):
                if kwargs.get("strict") is TRUE and len({len(i) for i in its}) > 1:
                    self.emit("raise", ("ValueError", None), site)
                    return BOT
                return Tup([Tup(x) for x in zip(*its)], "list")
            return mk("ext", "zip", *[to_node(a) for a in args])
        if base == "enumerate":
            it = self.iter_items(a0)
            if it is not None:
                st = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
                return Tup([Tup([arith("add", num(i), st), x]) for i, x in enumerate(it)], "list")
            return mk("ext", "enumerate", to_node(a0))
        if base == "reversed" and self.iter_items(a0) is not None:
            return Tup(list(reversed(self.iter_items(a0))), "list")
        if base in ("list", "tuple", "set", "frozenset"):
            if not args:
                return Tup([], "list")
            it = self.iter_items(a0)
            if it is not None:
                if base.endswith("set") and all(isinstance(x, Node) for x in it):
                    it = list({x.id: x for x in it}.values())
                return Tup(it, "list" if base != "tuple" else "tuple")
            return to_node(a0)
        if name == "dict.fromkeys" and isinstance(a0, Tup) and len(args) == 1 and all(isinstance(x, Node) for x in a0.items):
            return Tup(list({x.id: x for x in a0.items}.values()), "list")
        if base == "dict":
            d = dict(a0.d) if isinstance(a0, Dct) else {}
            if isinstance(a0, Tup):
                for x in a0.items:
                    k = pykey(x.items[0]) if isinstance(x, Tup) else None
                    if k:
                        d[k[0]] = x.items[1]
            d.update(kwargs)
            return Dct(d)
        if base == "sorted" and isinstance(a0, Tup) and all(isinstance(x, Node) and isnum(x) for x in a0.items) and not kwargs:
            return Tup(sorted(a0.items, key=lambda x: x.args[0]), "list")
        if base in ("print", "open", "input", "exec", "eval", "setattr", "delattr", "globals", "locals", "__import__"):
            self.emit("extcall", {"name": f"{lib}.{base}", "args": args, "kwargs": kwargs}, site)
            return opaque(base, *[to_node(a) for a in args])
        if base in ("ValueError", "TypeError", "Exception", "RuntimeError", "UserWarning", "Warning"):
            return mk("exc", base, *[to_node(a) for a in args])
        if base in ("seterr", "errstate", "fill_diagonal", "put", "copyto", "place", "putmask", "savetxt", "save"):
            self.emit("extcall", {"name": f"{lib}.{name}", "args": args, "kwargs": kwargs}, site)
            return opaque(base)
        if base == "type":
            return mk("ext", "type", to_node(a0))
        # any other library function: uninterpreted, pure
        self.unknown_ext.setdefault(f"{lib}.{name}", 0)
        self.unknown_ext[f"{lib}.{name}"] += 1
        if name.startswith("random"):
            self.emit("extcall", {"name": f"{lib}.{name}", "args": args, "kwargs": kwargs}, site)
        return mk("ext", f"{lib}.{name}", *[to_node(a) for a in args],
                  *[x for k, v in sorted(kwargs.items()) for x in (string("=" + k), to_node(v))])

    def array_call(self, lib, name, base, args, kwargs, site):
        """library calls that do not act element by element"""
        a0 = args[0] if args else None
        if not any(self.arr(a) for a in args):
            return None
        if base == "isnan":
            self.nan_calls.add((id(site), len(self.stack)))
            return None
        if lib == "math" or lib == "builtins" and base in ("float", "int", "bool", "round", "complex"):
            if not (base == "round" or base == "bool" and isinstance(a0, Tup)):
                self.emit("ambiguous", (f"{base}() of an array", ast.unparse(site)[:80]), site)
            return None
        if lib == "builtins" and base in ("min", "max", "sorted", "any", "all", "sum"):
            if len(args) > 1 and base in ("min", "max") or isinstance(a0, Tup) and base not in ("sum",):
                self.emit("ambiguous", ("truth value of an array", ast.unparse(site)[:80]), site)
                return None
            if isinstance(a0, Tup):
                return None
            return mk(base, truth_any(a0)) if base in ("any", "all") else mk("red", base, to_node(a0))
        if base in ("any", "all") and isinstance(a0, Tup):
            c = mk("tupany") if False else None
            items = [truth_any(x) for x in a0.items]
            r = FALSE if base == "any" else TRUE
            for x in items:
                x = mk(base, x) if self.arr(x) and not isconst(x) and "axis" not in kwargs else x
                r = or_(r, x) if base == "any" else and_(r, x)
            return r
        if base in ("any", "all") and isinstance(a0, Node):
            c = truth_any(a0)
            return c if isconst(c) else mk(base, c)
        if base in ("min", "max", "amin", "amax", "nanmin", "nanmax", "sum", "mean", "nansum", "nanmean", "prod", "median",
                    "average", "std", "var"):
            k = base.replace("nan", "").replace("amin", "min").replace("amax", "max")
            ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
            if isinstance(a0, Tup):
                plain = self.plain_items(a0, site)
                if plain:
                    self.emit("ambiguous", ("list of arrays and scalars made into one array", ast.unparse(site)[:80]), site)
                if isinstance(ax, Node) and isnum(ax) and ax.args[0] == 0:
                    return None
                return mk("red", k, *[to_node(x) for x in a0.items])
            return mk("red", k, to_node(a0))
        if base in ("sort", "cumsum", "cumprod", "roll", "flip", "flipud", "fliplr", "diff", "gradient", "argsort", "unique",
                    "norm", "argmin", "argmax", "ptp", "percentile", "quantile", "interp", "dot", "trapz", "convolve"):
            return mk("ext", f"{lib}.{name}", *[to_node(a) for a in args])
        if base == "array" and isinstance(a0, Tup) and self.plain_items(a0, site):
            self.emit("ambiguous", ("list of arrays and scalars made into one array", ast.unparse(site)[:80]), site)
        return None

    def plain_items(self, t, site):
        """items that are certainly scalars next to items that are arrays"""
        n = sum(1 for x in t.items if self.arr(x))
        if not n or n == len(t.items):
            return False
        lit = None
        if isinstance(site, ast.Call) and site.args and isinstance(site.args[0], (ast.List, ast.Tuple)):
            lit = site.args[0].elts
        for i, x in enumerate(t.items):
            if self.arr(x) or not isinstance(x, Node):
                continue
            if not isconst(x) and x.op not in ("opaque", "ext", "mu", "map"):
                return True
            if isconst(x) and lit is not None and i < len(lit):
                if isinstance(lit[i], (ast.Constant, ast.UnaryOp)):
                    return True
                fn = self.stack[-1].fn if self.stack else None
                if isinstance(lit[i], ast.Name) and fn is not None and fn.closure is None and lit[i].id in self.module_env(fn.module) \
                        and lit[i].id not in local_names(fn.node):
                    return True
            self.emit("shape", ("list of arrays and values of unknown shape", ast.unparse(site)[:80]), site)
        return False

    def isinstance_(self, v, cls):
        names = set()
        for c in (cls.items if isinstance(cls, Tup) else [cls]):
            if isinstance(c, Ext):
                names.add(c.name.split(".")[-1])
            elif isinstance(c, ClsVal):
                names.add(c.name)
        scalar = {"float", "int", "float64", "number", "floating", "Number", "Real", "generic", "float_", "integer"}
        arr = {"ndarray", "Iterable", "Sequence"}
        if isinstance(v, Tup):
            return boolean(bool(names & ({"list", "Sequence", "Iterable"} if v.kind == "list" else {"tuple", "Sequence", "Iterable"} if v.kind == "tuple" else arr)))
        if isinstance(v, Dct):
            return boolean("dict" in names)
        if isinstance(v, Node):
            if v.op == "str" or v.op == "ssym":
                return boolean("str" in names)
            if v.op == "none":
                return boolean("NoneType" in names)
            if v.op in ("bool", "bsym"):
                return boolean(bool(names & {"bool", "int", "bool_"}))
            if v.op == "tup":
                return boolean(bool(names & {"list", "tuple"}))
            if isconst(v):
                if names & {"float", "number", "Number", "Real"}:
                    return TRUE
                return boolean("int" in names and v.op == "num" and v.args[0].denominator == 1)
            if self.arr(v):
                return boolean(bool(names & arr))
            if v.op == "sym" and v.args[0][:3] in ("np_", "ni_", "py_"):   # typed scalars used by C05
                t = {"np_": {"number", "generic", "floating", "inexact", "Number", "Real", "float32"},
                     "ni_": {"number", "generic", "integer", "signedinteger", "Number", "Real", "int64", "int_"},
                     "py_": {"int", "Number", "Real", "Integral"}}[v.args[0][:3]]
                return boolean(bool(names & t))
            if v.op == "isym":
                return boolean(bool(names & {"int", "number", "Number", "Real"}))
            return boolean(bool(names & (scalar - {"int", "integer"})))
        return FALSE


# ------------------------------------------------------------------ helpers
LANE = mk("lane")


def lane_iter(it):
    """iteration over the positions of an array"""
    if not (isinstance(it, Node) and it.op == "ext"):
        return False
    a = [x for x in it.args[1:] if isinstance(x, Node)]
    if it.args[0] == "numpy.ndindex":
        return len(a) == 1 and a[0].op == "ext" and a[0].args[0] in (".shape", "numpy.shape")
    if it.args[0] == "range":
        return len(a) == 1 and a[0].op == "ext" and a[0].args[0] in ("len", ".size")
    return False


SHAPEFN = {"len", "ndim", ".shape", ".size", ".ndim", "type", ".dtype"}
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


def truth_any(v):
    if isinstance(v, Choice):
        return merge(v.cond, truth_any(v.a), truth_any(v.b))
    return truth(v)


def bcast1(f, x):
    if isinstance(x, Tup):
        return Tup([bcast1(f, y) for y in x.items], "array")
    return f(to_node(x))


def bcast2(f, x, y):
    if isinstance(x, Tup) and isinstance(y, Tup):
        if len(x.items) == len(y.items):
            return Tup([bcast2(f, a, b) for a, b in zip(x.items, y.items)], "array")
        return opaque("broadcast", to_node(x), to_node(y))
    if isinstance(x, Tup):
        return Tup([bcast2(f, a, y) for a in x.items], "array")
    if isinstance(y, Tup):
        return Tup([bcast2(f, x, b) for b in y.items], "array")
    return f(to_node(x), to_node(y))


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return boolean(v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if v is Ellipsis:
        return NONE
    return opaque("const")


def pykey(n):
    """python constant for a constant term, as 1-tuple"""
    if isinstance(n, Node):
        if n.op == "str" or n.op == "bool":
            return (n.args[0],)
        if n.op == "num":
            f = n.args[0]
            return (int(f) if f.denominator == 1 else float(f),)
        if n.op == "none":
            return (None,)
    if isinstance(n, Tup):
        ks = [pykey(x) for x in n.items]
        if all(k is not None for k in ks):
            return (tuple(k[0] for k in ks),)
    return None


_assigned_cache = {}


def local_names(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}


_PLAIN = {}


def plain_while(st):
    """while True: if C: break; ...  is  while not C: ..."""
    if id(st) in _PLAIN:
        return _PLAIN[id(st)][1]
    new = st
    while (isinstance(new.test, ast.Constant) and new.test.value and not new.orelse and len(new.body) > 1 and isinstance(new.body[0], ast.If)
           and not new.body[0].orelse and len(new.body[0].body) == 1 and isinstance(new.body[0].body[0], ast.Break)):
        c = new.body[0].test
        t = c.operand if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), c), c)
        new = ast.copy_location(ast.While(t, new.body[1:], []), st)
    _PLAIN[id(st)] = (st, new)
    return new


def guarded(pairs):
    return [x if c is TRUE else mk("maybe", c, x) for c, x in pairs if c is not FALSE]


def unguard(x):
    """-> condition under which the element is there, element"""
    if isinstance(x, Node) and x.op == "maybe" and len(x.args) == 2:
        v = x.args[1]
        return x.args[0], Tup(list(v.args)) if v.op == "tup" else v
    return TRUE, x


def assigned_names(loop):
    if id(loop) in _assigned_cache:
        return _assigned_cache[id(loop)][0]
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "extend", "insert", "pop", "update", "sort"):
                add(n.func.value.id)
            elif isinstance(n, ast.keyword) and n.arg == "out" and isinstance(n.value, ast.Name):
                add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ("copyto", "putmask", "place") and n.args and isinstance(n.args[0], ast.Name):
                add(n.args[0].id)
    if isinstance(loop, ast.While):
        for n in ast.walk(loop.test):
            if isinstance(n, ast.NamedExpr):
                add(n.target.id)
    _assigned_cache[id(loop)] = (out, loop)
    return out


_local_cache = {}


def local_names(fn):
    if id(fn) in _local_cache:
        return _local_cache[id(fn)][0]
    out = set()
    for st in fn.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    _local_cache[id(fn)] = (out, fn)
    return out


def sel_leaves(v):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sel":
            st += [x.args[1], x.args[2]]
        else:
            yield x


def unbound_cond(v):
    if v.op == "unbound":
        return TRUE
    if v.op != "sel":
        return FALSE
    a, b = unbound_cond(v.args[1]), unbound_cond(v.args[2])
    return or_(and_(v.args[0], a), and_(not_(v.args[0]), b))


def drop_unbound(v):
    if v.op != "sel":
        return v
    c, a, b = v.args
    if a.op == "unbound":
        return drop_unbound(b)
    if b.op == "unbound":
        return drop_unbound(a)
    return sel(c, drop_unbound(a), drop_unbound(b))


def rebuild(n, args):
    """re-apply the smart constructors after substitution"""
    o = n.op
    if o in ("add", "sub", "mul", "div", "pow"):
        return arith(o, *args)
    if o == "neg":
        return neg(*args)
    if o == "cmp":
        return compare(args[0], args[1], args[2])
    if o == "and":
        return and_(*args)
    if o == "or":
        return or_(*args)
    if o == "not":
        return not_(*args)
    if o == "sel":
        return merge(*args)
    if o == "fn" and len(args) == 2:
        return fn1(args[0], args[1]) if args[0] in ("exp", "log", "sin", "cos", "tan", "abs", "floor", "ceil", "sinh",
                                                    "cosh", "tanh", "arctan", "sign") else mk(o, *args)
    if o == "fn" and args[0] in ("min", "max") and len(args) == 3:
        return minmax(*args)
    return mk(o, *args)


def subst(n, mapping):
    """mapping: node id -> node"""
    if not mapping or not isinstance(n, Node):
        return n
    memo = {}

    def go(x):
        if x.id in mapping:
            return mapping[x.id]
        r = memo.get(x.id)
        if r is not None:
            return r
        ch = False
        args = []
        for a in x.args:
            if isinstance(a, Node):
                y = go(a)
                ch = ch or y is not a
                args.append(y)
            else:
                args.append(a)
        r = rebuild(x, args) if ch else x
        memo[x.id] = r
        return r
    import sys
    old = sys.getrecursionlimit()
    if old < 20000:
        sys.setrecursionlimit(20000)
    return go(n)


def subst_syms(n, mp):
    """mp: parameter name -> node"""
    mapping = {}
    for k, v in mp.items():
        for op in ("sym", "bsym", "ssym"):
            mapping[mk(op, k).id] = v
    return subst(n, mapping)


def mus_canon(n, mus, names):
    return subst(to_node(n), {mus[v].id: mk("lv", names.index(v)) for v in names if v in mus})
