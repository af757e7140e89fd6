"""Array arguments: every public function is interpreted with array-valued parameters (all of them, and one at a time).
Branching on an array, making ragged arrays and the like are events; reductions over elements stay visible in the term.
Each element of the result must be the scalar result for that element's inputs, and arrays accepted before stay accepted."""
import json
import os

from ..api import PUBLIC, functions, where, missing
from ..compare import Side, repo_side, profiles, raise_cond, classify, PKG
from ..frontend import repo_program
from ..graph import Node, mk, num, sym, TRUE, FALSE, NONE, and_, or_, walk, show, NAN
from ..interp import Config, Tup, Dct, Rec, Choice, BOT, to_node, rebuild, minmax, arith, truth, isconst, subst, subst_syms
from .. import decide, identity
from ..report import Unit, Outcome

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "arrays.json")
_sides = {}


def side(names):
    names = frozenset(names)
    if names not in _sides:
        _sides[names] = Side(repo_program(), PKG, config=Config(array=names))
    return _sides[names]


class Coupled(Exception):
    pass


MOVES = {"sort", "flip", "flipud", "fliplr", "roll", "cumsum", "cumprod", "unique", "accumulate"}
ORDERED = {"accumulate", "sort", "cumsum", "cumprod", "roll", "flip", "flipud", "fliplr", "diff", "gradient", "argsort", "unique", "norm",
           "argmin", "argmax", "ptp", "percentile", "quantile", "interp", "dot", "trapz", "convolve"}


COUNT = arith("add", num(3), sym("more__elements"))


def lanes(n, names, k, memo=None):
    """the term for element k (0, 1 or, written 2, the last) of an array call in which element 0 differs from all others in the
    symbols of `names`; there are COUNT > 3 elements"""
    memo = {} if memo is None else memo
    key = (n.id, k)
    if key in memo:
        return memo[key]

    def go(x, j=k):
        return lanes(x, names, j, memo)
    if n.op == "sym":
        r = sym(n.args[0] + "__b") if k and n.args[0] in names else n
    elif n.op == "red":
        kind, items = n.args[0], n.args[1:]
        kind = {"median": "mean", "average": "mean"}.get(kind, kind)
        if kind not in ("min", "max", "sum", "mean", "prod"):
            raise Coupled
        if len(items) == 1:
            a, b = go(items[0], 0), go(items[0], 1)
            if kind in ("min", "max"):
                r = minmax(kind, a, b)
            elif kind == "prod":
                r = arith("mul", a, arith("pow", b, arith("sub", COUNT, num(1))))
            else:
                r = arith("add", a, arith("mul", arith("sub", COUNT, num(1)), b))
        else:
            flat = []
            for x in items:
                a, b = go(x, 0), go(x, 1)
                flat += [a] if a is b else [a, b]
            r = flat[0]
            for x in flat[1:]:
                r = minmax(kind, r, x) if kind in ("min", "max") else arith("mul" if kind == "prod" else "add", r, x)
        if kind == "mean":
            r = arith("div", r, COUNT if len(items) == 1 else num(len(flat)))
    elif n.op in ("any", "all"):
        a, b = go(n.args[0], 0), go(n.args[0], 1)
        r = or_(truth(a), truth(b)) if n.op == "any" else and_(truth(a), truth(b))
    elif n.op == "idx" and isinstance(n.args[1], Node) and n.args[1].op in ("num", "neg"):
        i = show(n.args[1])
        if any(x.op == "sym" and x.args[0] in names for x in walk(n.args[0])) and n.args[0].op not in ("tup", "ext", "loopv"):
            if i not in ("0", "1", "-1", "-2"):
                raise Coupled
            r = go(n.args[0], {"0": 0, "-2": 1, "1": 1, "-1": 2}[i])
        else:
            r = rebuild(n, [go(x) if isinstance(x, Node) else x for x in n.args])
    elif n.op == "ext" and n.args[0] == "len":
        r = COUNT
    elif n.op == "ext" and n.args[0].rpartition(".")[2] in MOVES and isinstance(n.args[1], Node):
        f, x = n.args[0].rpartition(".")[2], n.args[1]
        if x.op == "tup":
            raise Coupled
        a, b = go(x, 0), go(x, 1)
        if f in ("flip", "flipud", "fliplr"):
            r = go(x, 2 - k)
        elif f == "roll":
            by = show(n.args[2]) if len(n.args) > 2 else ""
            if by not in ("1", "-1"):
                raise Coupled
            r = go(x, (2, 0, 1)[k] if by == "1" else (1, 1, 0)[k])
        elif f == "cumsum":
            r = (a, arith("add", a, b), arith("add", a, arith("mul", arith("sub", COUNT, num(1)), b)))[k]
        elif f == "cumprod":
            r = (a, arith("mul", a, b), arith("mul", a, arith("pow", b, arith("sub", COUNT, num(1)))))[k]
        elif f == "accumulate":
            m = n.args[0].rpartition(".")[0].rpartition(".")[2]
            if m not in ("maximum", "minimum"):
                raise Coupled
            r = a if k == 0 else minmax(m[:3], a, b)
        else:
            r = (minmax("min", a, b), b, minmax("max", a, b))[k]
    elif n.op == "ext" and n.args[0].rpartition(".")[2] in ORDERED:
        r = mk("ext", n.args[0] + f"#{k}", *[go(x, j) for x in n.args[1:] if isinstance(x, Node) for j in (0, 1)])
    elif n.op in ("fix", "loopv") and any(x.op in ("red", "any", "all", "elem", "idx") for x in walk(n)):
        raise Coupled
    elif not n.args or not any(isinstance(x, Node) for x in n.args):
        r = n
    else:
        r = rebuild(n, [go(x) if isinstance(x, Node) else x for x in n.args])
    memo[key] = r
    return r


def outside(n):
    """the nodes of a term that are not inside a loop value, and the outermost loop values"""
    seen, out, loops, todo = set(), [], [], [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("fix", "loopv"):
            loops.append(x)
            continue
        out.append(x)
        todo += [a for a in x.args if isinstance(a, Node)]
    return out, loops


def reordered(n):
    """does a function that mixes the elements work on a loop value, so that an element of the result changes with another element
    of it"""
    out, loops = outside(n)
    if not loops or not any(x.op == "ext" and x.args[0].rpartition(".")[2] in MOVES for x in out):
        return False
    memo = {x.id: sym(f"loopvalue{i}") for i, x in enumerate(loops)}

    def go(x):
        if x.id not in memo:
            memo[x.id] = rebuild(x, [go(a) if isinstance(a, Node) else a for a in x.args]) \
                if any(isinstance(a, Node) for a in x.args) else x
        return memo[x.id]
    names = {f"loopvalue{i}" for i in range(len(loops))}
    try:
        a = lanes(go(n), names, 0)
        b = subst_syms(a, {m + "__b": sym(m + "__c") for m in names})
        return identity.refute(a, b, n=400) is not None
    except (Coupled, RecursionError):
        return False


def mixed(n):
    return any(x.op == "ext" and x.args[0].rpartition(".")[2] in ORDERED for x in walk(n))


ELEMENTWISE = {"disper", "strip", "lower", "upper", "arange", "append", "len", "isclose", "nan_to_num"}


def foreign(n):
    """library calls on inputs about whose elements nothing is known"""
    return any(x.op == "ext" and x.args[0].rpartition(".")[2] not in ELEMENTWISE and any(y.op == "sym" for y in walk(x))
               for x in walk(n))


def alone(n):
    """the term with the functions that only move elements taken away: their value for an array of one element"""
    m = {}
    for x in walk(n):
        if x.op == "ext" and x.args[0].rpartition(".")[2] in MOVES and isinstance(x.args[1], Node) \
                and x.args[1].op != "tup":
            m[x.id] = x
    return subst(n, {i: alone(x.args[1]) for i, x in m.items()}) if m else n


def coupled(n):
    """does the term hold something that looks at more than one element"""
    return any(x.op in ("red", "any", "all", "idx", "elem", "ext") for x in walk(n))


def leaves(v):
    if isinstance(v, Tup):
        return [x for i in v.items for x in leaves(i)]
    if isinstance(v, Dct):
        return [x for i in v.d.values() for x in leaves(i)]
    if isinstance(v, Rec):
        return [x for i in v.fields.values() for x in leaves(i)]
    if v is BOT or v is None:
        return [v]
    return [to_node(v)]


def satisfiable(c, names):
    if c is TRUE:
        return True
    try:
        c = lanes(c, names, 0)
    except (Coupled, RecursionError):
        return False
    if c is TRUE or c is FALSE:
        return c is TRUE
    return identity.refute(c, FALSE, n=400) is not None


def numeric(sig, args):
    out = []
    for p, d in sig:
        v = args.get(p)
        if isinstance(v, Node) and v.op == "sym" and p not in SETTINGS:
            out.append(p)
    return out


SETTINGS = {"max_iter", "max_iterations", "tolerance", "output_dir", "file_name"}


def shapes(s):
    """call shapes for arrays: up to 14 sets of supplied inputs, coefficients at their defaults and symbolic"""
    sig = repo_side().signature(s)
    every = profiles(sig, limit=400)
    out = []
    for kind in ("default", "coef"):
        prs = [p for p in every if p.label.endswith("|" + kind)]
        if len(prs) > 14:
            step = len(prs) / 14
            prs = [prs[i] for i in sorted({int(i * step) for i in range(14)} | {len(prs) - 1, 0})]
        out += prs
    return out


def subsets(s, pr):
    sig = repo_side().signature(s)
    names = numeric(sig, pr.args)
    yield "all", list(names)
    coef = {p for p, d in sig if classify(d) == "coef"}
    if pr.label.endswith("|coef"):
        main = [n for n in names if n not in coef]
        if main and len(main) < len(names):
            yield "all but coefficients", main
        names = [n for n in names if n in coef] if len(names) > 1 else []
    if len(names) > 1:
        for n in names:
            yield n, [n]


def keyof(s, pr, lab):
    head, _, kind = pr.label.rpartition("|")
    return f"{s}|{head}{'' if kind == 'default' else '|' + kind}|{lab}"


def ambiguous(r, names):
    """first event at which the array call fails, reachable for some input"""
    for e in r.events:
        if e.kind == "ambiguous" and satisfiable(e.cond, set(names)):
            return e
    return None


def check_function(s, base):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    sig = R.signature(s)
    for pr in shapes(s):
        sc = R.run(s, pr.args)
        if sc.value is BOT:
            continue
        for lab, names in subsets(s, pr):
            key = keyof(s, pr, lab)
            A = side(names)
            try:
                r = A.run(s, pr.args)
            except RecursionError:
                o.ob(False, f"{key}: recursion limit")
                continue
            e = ambiguous(r, names)
            call = f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}, array for {lab if lab != 'all' else 'every input'}"
            if e is not None:
                o.count("array calls that fail (scalar only)")
                if key in base:
                    o.obligations += 1
                    o.violation(key, f"{call}: no longer accepts arrays: {e.data[0]} at {e.at()}: {e.data[1]}")
                    return o
                continue
            for e in r.events:
                if e.kind == "intstore" and satisfiable(e.cond, set(names)):
                    o.obligations += 1
                    o.violation(f"{s}:intstore:{e.module.rpartition('/')[2]}:{e.func}",
                                f"{call}: the result is stored in an array with a whole-number type (or that of an input) at {e.at()}: "
                                f"{e.data[0]}; the elements are cut off")
                    return o
            o.count("array calls analysed")
            la, lb = leaves(r.value), leaves(sc.value)
            if len(la) != len(lb):
                o.ob(False, f"{key}: result of another shape")
                continue
            live = raise_cond(sc)
            ok = True
            for a, b in zip(la, lb):
                if a is b and not (isinstance(a, Node) and mixed(a)):
                    ok = ok and not (isinstance(a, Node) and foreign(a))
                    continue
                if not isinstance(a, Node) or not isinstance(b, Node):
                    ok = False
                    continue
                for k in (0, 1):
                    try:
                        x, y = lanes(a, set(names), k), lanes(alone(b), set(names), k)
                        v = decide.equal_nodes(x, y, budget=60, points=300, seconds=6)
                    except (Coupled, RecursionError):
                        ok = False
                        break
                    if v.kind == "refuted" and (any(z.op == "loopv" for q in (x, y) for z in walk(q))
                                                or any(ev.kind == "shape" for ev in r.events)):
                        v = decide.Verdict("undecided")
                    if v.kind == "refuted":
                        sites = [f"{ev.data[0]} at {ev.at()}" for ev in side(()).run(s, pr.args).events if ev.kind == "reduce"]
                        o.obligations += 1
                        o.violation(key, f"{call}: element {k} of the result is not the result for element {k} of the inputs "
                                         f"(second element written name__b) {v.text()}"
                                         + (f"; reduction {'; '.join(sites[:3])}" if sites else ""))
                        return o
                    ok = ok and v.kind == "proved"
                if not ok and reordered(a):
                    o.obligations += 1
                    o.violation(key, f"{call}: element 0 of the result depends on element 1 of a computed array: {show(a)[:80]}")
                    return o
            o.ob(ok, f"{key}: elements not shown independent")
    return o


def check_values(s):
    """accepted array calls return the scalar formula for each element (the array side of formula conformance)"""
    if not repo_side().has(s):
        return Outcome()
    return check_function(s, set())


def baseline():
    try:
        with open(BASE) as f:
            return set(json.load(f))
    except OSError:
        return set()


def record():
    """regenerate the list of accepted array calls (used once; the list is committed)"""
    out = []
    for s in functions():
        R = repo_side()
        sig = R.signature(s)
        for pr in shapes(s):
            if R.run(s, pr.args).value is BOT:
                continue
            for lab, names in subsets(s, pr):
                if ambiguous(side(names).run(s, pr.args), names) is None:
                    out.append(keyof(s, pr, lab))
    return out


def units(pid, tier):
    base = baseline()
    return [Unit(s, (check_function, s, {b for b in base if b.startswith(s + "|")}), weight=len(shapes(s)))
            for s in functions() if repo_side().has(s) or True]
