"""The validity-range primitive: for scalars of every numeric type, lists and arrays it warns for exactly the elements
strictly outside the closed range, names variable and formula in the warning, and returns one verdict per element."""
import ast

from ..compare import Side, PKG, raise_cond, errors, CHECK
from ..frontend import repo_program
from ..graph import Node, mk, sym, and_, or_, not_, TRUE, FALSE, NONE, walk, show
from ..interp import Tup, Choice, to_node, compare, Ext, BOT
from .. import decide, identity
from ..report import Unit, Outcome

S = CHECK[len(".functions."):]
OKCAT = {"UserWarning", "Warning", "RuntimeWarning", "FutureWarning", "SyntaxWarning", "UnicodeWarning", "BytesWarning",
         "ResourceWarning"} - {"ResourceWarning"}
QUIET = {"simplefilter", "filterwarnings", "catch_warnings", "resetwarnings", "showwarning"}


def kinds():
    a, b, c = sym("val_a"), sym("val_b"), sym("val_c")
    yield "float", sym("val_x"), [sym("val_x")]
    for p, t in (("np_", "numpy floating scalar"), ("ni_", "numpy integer scalar"), ("py_", "int")):
        yield t, sym(p + "val_x"), [sym(p + "val_x")]
    yield "list", Tup([a, b, c], "list"), [a, b, c]
    yield "array", Tup([a, b, c], "array"), [a, b, c]
    yield "list with a repeated value", Tup([a, b, a], "list"), [a, b, a]
    yield "array with a repeated value", Tup([a, b, a], "array"), [a, b, a]
    long = [a, b] * 60
    yield "list of 120 values", Tup(long, "list"), long
    yield "one-element array", Tup([a], "array"), [a]


def scalarised(n):
    return any(x.op == "elem" and x.args and isinstance(x.args[0], Node) and x.args[0].op == "sym" for x in walk(n))


def eq(a, b):
    k = decide.equal_nodes(a, b, budget=200, points=400)
    if k.kind != "refuted":
        w = beside(a, b, k.kind == "proved")
        if w is not None:
            return decide.Verdict("refuted", w)
    return k


def beside(a, b, proved):
    """values on and right beside the bounds, also for ranges that are open at one end; the steps are exact in floating point"""
    els = sorted({x.args[0] for t in (a, b) for x in walk(t) if x.op == "sym" and x.args[0] not in ("val_min", "val_max")})
    inf = float("inf")
    for lo, hi in ((2.0, 5.0), (-5.0, -2.0), (0.0, 1.0), (-1.0, 0.0), (0.0, 1024.0), (2.0, inf), (-inf, 2.0)):
        if proved and abs(lo) + abs(hi) != inf:
            continue    # settled over the reals
        for name in els:
            for at in (lo, hi):
                if abs(at) == inf:
                    continue
                for d in (2.0 ** -33, 2.0 ** -27, 2.0 ** -20, 2.0 ** -10, 0.5, 0.0):
                    for x in (at - d, at + d):
                        env = {("sym", e): (lo + hi) / 2 if abs(lo + hi) != inf else 2.0 for e in els}
                        env.update({("sym", "val_min"): lo, ("sym", "val_max"): hi, ("sym", name): x})
                        try:
                            ev, ew = identity.Eval(env), identity.Eval(env)
                            p, q = ev(a), ew(b)
                        except (identity.Dom, RecursionError, OverflowError):
                            continue
                        if ev.used == ew.used and isinstance(q, bool) and p != q:
                            return identity.Witness(env, p, q)
    return None


def check_kind(label, v, els):
    o = Outcome()
    R = Side(repo_program(), PKG, record=False)
    o.functions.add(S)
    if not R.has(S):
        o.violation(S, "the validity-range primitive no longer exists")
        return o
    fn = R.fn(S)
    where = f"{fn.module.rel}:{fn.node.lineno} check of a {label}"
    names = [p for p, _ in R.signature(S)]
    lo, hi = sym("val_min"), sym("val_max")
    vals = [mk("ssym", "variable_name"), mk("ssym", "formula_name"), v, lo, hi]
    r = R.run(S, dict(zip(["variable_name", "formula_name", "values", "min_value", "max_value"], vals)))
    for e in errors(r):
        o.obligations += 1
        o.violation(S + label, f"{where}: the call fails, {e.kind} {e.data} at {e.at()}")
        return o
    c = raise_cond(r)
    if c is not FALSE:
        k = eq(c, FALSE)
        o.obligations += 1
        if k.kind == "refuted":
            o.violation(S + label, f"{where}: raises {k.text()}")
            return o
    want = [or_(compare("<", x, lo), compare("<", hi, x)) for x in els]
    warns = [e for e in r.events if e.kind == "warn"]
    for e in r.events:
        if e.kind == "loop" and isinstance(e.data, dict) and isinstance(e.data.get("iter"), Node) \
                and e.data["iter"].op == "sym":
            o.obligations += 1
            o.violation(S + label, f"{where}: a scalar is iterated over at {e.at()}")
            return o
    # verdicts
    val = r.value
    if isinstance(val, Node) and val.op == "tup":
        val = Tup(list(val.args))
    o.obligations += 1
    for cond, leaf in variants(val, TRUE):
        if isinstance(val, Choice) and isinstance(leaf, Tup) and len(leaf.items) != len(els) and (
                cond is TRUE or identity.refute(cond, FALSE, n=400) is not None):
            o.violation(S + label, f"{where}: {len(leaf.items)} verdicts for {len(els)} values in some case")
            return o
    if isinstance(val, Tup):
        if len(val.items) != len(els):
            o.violation(S + label, f"{where}: {len(val.items)} verdicts for {len(els)} values")
            return o
        o.proved += 1
        for x, w, y in zip(els, want, val.items):
            k = eq(to_node(y), not_(w))
            if k.kind == "refuted":
                o.violation(S + label, f"{where}: verdict for {show(x)} wrong {k.text()} (repository versus expected)")
                return o
            o.ob(k.kind == "proved", f"verdict of {show(x)} ({label})")
    else:
        o.undecided.append(f"{label}: returned value not a sequence of known length")
    # warnings
    for x, w in zip(els, want):
        ws = [e for e in warns if mentions(e, x)] if len(els) > 1 else warns
        got = FALSE
        for e in ws:
            got = or_(got, e.cond)
        k = eq(got, w)
        if k.kind == "refuted":
            if len(els) > 1 and not any(mentions(e, y) for e in warns for y in els):
                o.ob(False, f"warning of {show(x)} ({label})")
                continue
            o.violation(S + label, f"{where}: warning about {show(x)} {k.text()} (issued versus expected)")
            return o
        o.ob(k.kind == "proved", f"warning of {show(x)} ({label})")
    for e in warns:
        m = to_node(e.data["msg"])
        for nm in ("variable_name", "formula_name"):
            o.obligations += 1
            if any(x.op == "ssym" and x.args[0] == nm for x in walk(m)):
                o.proved += 1
            elif any(x.op in ("opaque", "ext") for x in walk(m)):
                o.undecided.append(f"message of {e.at()}")
            else:
                o.violation(S + nm, f"{where}: the warning at {e.at()} does not name the {nm.replace('_name', '')}")
                return o
        cat = e.data.get("category")
        if isinstance(cat, Ext) or isinstance(cat, Node) and cat is not NONE:
            nm = cat.name.split(".")[-1] if isinstance(cat, Ext) else None
            if nm and nm in ("DeprecationWarning", "PendingDeprecationWarning", "ImportWarning", "ResourceWarning"):
                o.violation(S + "cat", f"{where}: warning category {nm} at {e.at()} is hidden by default")
                return o
    o.samples.append(f"{label}: verdicts and warnings of {len(els)} value(s)")
    return o


def variants(v, cond):
    if isinstance(v, Choice):
        yield from variants(v.a, and_(cond, v.cond))
        yield from variants(v.b, and_(cond, not_(v.cond)))
    else:
        yield cond, v


def suppressions():
    """no module of the package changes the warning filters"""
    o = Outcome()
    prog = repo_program()
    for m in prog.modules.values():
        o.count("modules scanned for warning filters")
        alias, direct = set(), {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "warnings":
                        alias.add(a.asname or "warnings")
            elif isinstance(n, ast.ImportFrom) and n.module == "warnings":
                for a in n.names:
                    direct[a.asname or a.name] = a.name
        for n in ast.walk(m.tree):
            nm = None
            if isinstance(n, ast.Call) and "catch_warnings" in (getattr(n.func, "attr", ""), direct.get(
                    getattr(n.func, "id", ""), "")) and any(
                    k.arg in ("record", "action") and not (isinstance(k.value, ast.Constant) and not k.value.value)
                    for k in n.keywords):
                o.violation("filter:" + m.name, f"{m.rel}:{n.lineno} warnings.catch_warnings swallows validity warnings")
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
                nm = n.attr
            elif isinstance(n, ast.Name) and n.id in direct:
                nm = direct[n.id]
            if nm in ("simplefilter", "filterwarnings", "resetwarnings", "showwarning"):
                o.violation("filter:" + m.name, f"{m.rel}:{n.lineno} warnings.{nm} can hide validity warnings")
        o.ob(True)
    return o


def mentions(e, x):
    return any(y is x for y in walk(to_node(e.data["msg"])))


def units(pid, tier):
    out = [Unit(l, (check_kind, l, v, els)) for l, v, els in kinds()]
    out.append(Unit("suppressions", (suppressions,)))
    return out


def minimum(pid):
    return 30
