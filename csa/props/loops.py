"""Iterations: every loop has a ranking argument (a quantity that bounds the continuation test and moves by a constant per
pass), honours the caller's iteration limit and tolerance, makes at least one pass, and goes on while any element of an
array call has not converged; no function calls itself with unchanged arguments."""
from fractions import Fraction

from ..api import functions, where, missing
from ..compare import repo_side, profiles
from ..graph import Node, mk, num, sym, TRUE, FALSE, NAN, and_, or_, not_, walk, show, isnum
from ..interp import BOT, Tup, to_node, subst, arith, truth, rebuild
from .. import nf, decide, identity
from ..report import Unit, Outcome
from .arrays import side, lanes, Coupled, numeric, ambiguous

LIMITS = ("max_iter", "max_iterations")
ENDLESS = ("itertools.count", "itertools.cycle", "itertools.repeat", "iter")


def nnf(c):
    """negations moved down to the comparisons"""
    if c.op in ("and", "or"):
        f = and_ if c.op == "and" else or_
        return f(nnf(c.args[0]), nnf(c.args[1]))
    if c.op == "not" and c.args[0].op in ("and", "or"):
        f = or_ if c.args[0].op == "and" else and_
        return f(nnf(not_(c.args[0].args[0])), nnf(not_(c.args[0].args[1])))
    if c.op == "not" and c.args[0].op == "sel" and all(decide.is_boolish(x) for x in c.args[0].args[1:]):
        k, a, b = c.args[0].args
        return nnf(mk("sel", k, not_(a), not_(b)))
    if c.op == "sel" and decide.is_boolish(c):
        k, a, b = c.args
        c = mk("sel", k, subst(a, {k.id: TRUE}), subst(b, {k.id: FALSE}))
    if c.op == "sel" and FALSE in c.args[1:]:
        return and_(nnf(c.args[0]), nnf(c.args[1])) if c.args[2] is FALSE else and_(nnf(not_(c.args[0])), nnf(c.args[2]))
    if c.op == "sel" and TRUE in c.args[1:]:
        return or_(nnf(c.args[0]), nnf(c.args[2])) if c.args[1] is TRUE else or_(nnf(not_(c.args[0])), nnf(c.args[1]))
    return c


def conjuncts(c):
    c = nnf(c)
    if c.op == "and":
        return [x for a in c.args for x in conjuncts(a)]
    return [] if c is TRUE else [c]


def gap(c):
    """c is 'gap > 0' (or >= 0): the gap, whether equality counts"""
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        return arith("sub", c.args[2], c.args[1]), c.args[0] == "<="
    if c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] in ("<", "<="):
        return arith("sub", c.args[0].args[1], c.args[0].args[2]), c.args[0].args[0] == "<"
    return None, None


def arms(n):
    return arms(n.args[1]) + arms(n.args[2]) if n.op == "sel" else [n]


def grown(f, d):
    """gap after one pass; lengths of arrays that get one element appended grow by one"""
    m, low = {}, {}
    for v, mu in d["mus"].items():
        st = d["step"].get(v)
        if st is None:
            continue
        st = to_node(st)
        if st.op == "ext" and st.args[0].rpartition(".")[2] == "append" and st.args[1] is mu:
            low[mk("ext", "len", mu).id] = arith("add", mk("ext", "len", mu), num(1))
        else:
            m[mu.id] = st
    keep = {}
    for x in walk(f):
        if x.id in low:
            keep[x.id] = low[x.id]
    return [subst(f, {**m1, **keep}) for m1 in expand_arms(m)]


def expand_arms(m):
    out = [dict()]
    for k, v in m.items():
        vs = arms(v)
        if len(vs) * len(out) > 16:
            vs = [v]
        out = [{**o, k: x} for o in out for x in vs]
    return out


def decrease(c, d):
    """constant by which the gap of clause c shrinks in every pass, or None"""
    f, _ = gap(c)
    if f is None:
        return None
    if any(x.op == "inf" for x in walk(f)):
        return None
    best = None
    for g in grown(f, d):
        try:
            p = nf.poly(arith("sub", f, g))
        except Exception:
            return None
        k = const_of(p)
        if k is None or k <= 0:
            return None
        best = k if best is None else min(best, k)
    return best


def const_of(p):
    n = nf.to_term(p) if hasattr(nf, "to_term") else None
    if n is not None:
        return float(n.args[0]) if n.op == "num" else None
    try:
        items = dict(p.t if hasattr(p, "t") else p)
    except Exception:
        return None
    if not items:
        return 0.0
    if len(items) == 1:
        (k, v), = items.items()
        if k == () or k == frozenset() or not k:
            return float(v)
    return None


def bounding(c, d):
    """(clause, decrease) proving that clause c cannot hold for ever, or None"""
    if c.op == "or":
        r = [bounding(x, d) for x in c.args]
        return r[0] if all(r) else None
    k = decrease(c, d)
    return (c, k) if k else None


def unclear(d, c):
    """terms the rule cannot judge: a reason not to report"""
    ks = [x for k in [c] + clauses(d) for x in walk(k)]
    for v, mu in d["mus"].items():
        # the length of something that is put together in another way than by appending
        if mk("ext", "len", mu) in ks and to_node(d["step"].get(v, mu)) is not mu and not (
                to_node(d["step"][v]).op == "ext" and to_node(d["step"][v]).args[0].rpartition(".")[2] == "append"):
            return True
    for n in [c] + [to_node(d["step"][v]) for v in d["step"] if any(x is d["mus"][v] for x in walk(c))]:
        for x in walk(n):
            if x.op in ("opaque", "star", "maybe") or x.op == "ext" and x.args[0].startswith(("rec:", ".")):
                return True
    return False


def flags(d):
    """variables that keep the outcome of a stop test until the next pass: what they stand for"""
    used = {x.id for x in walk(and_(d["test"], not_(d["break"])))}
    out = {}
    for v, mu in d["mus"].items():
        st, i = d["step"].get(v), d["init"].get(v)
        if st is None or mu.id not in used or not isinstance(i, Node) or not (i in (TRUE, FALSE) or i.op == "bool"):
            continue
        st = to_node(st)
        if decide.is_boolish(st) and not any(x is mu for x in walk(st)):
            out[mu.id] = st
            out[mk("cmp", "==", mu, num(0)).id] = not_(st)
    return out


def entry(d, only=None):
    """values of the carried variables before the first pass"""
    m = {}
    for v, mu in d["mus"].items():
        if v in d["init"] and (only is None or mu.id in only):
            i = m[mu.id] = to_node(d["init"][v])
            if i in (TRUE, FALSE):
                m[mk("cmp", "==", mu, num(0)).id] = not_(i)
    return m


def goes_on(d):
    """condition for another pass, stop tests kept in a flag included"""
    c = and_(d["test"], not_(d["break"]))
    m = flags(d)
    return subst(c, m) if m else c


def clauses(d):
    c = goes_on(d)
    return conjuncts(c) + [x for x in conjuncts(d["endpc"]) if any(y.op == "mu" for y in walk(x))]


def passes(b, d):
    """number of passes the bounding clause allows, as a term"""
    c, k = b
    f, eq = gap(c)
    f0 = subst(f, {mu.id: to_node(d["init"][v]) for v, mu in d["mus"].items() if v in d["init"]})
    if any(x.op == "ext" and x.args[0] == "len" for x in walk(f0)):
        return None
    n = arith("div", f0, num(k))
    if flags(d) and not any(x is c for x in conjuncts(subst(and_(d["test"], not_(d["break"])), entry(d, flags(d))))):
        n = arith("add", n, num(1))
    return arith("add", n, num(1)) if eq else n


def check_loop(s, e, args, o, key, call):
    d = e.data
    o.count("loops")
    at = e.at()
    limit = next((args[p] for p in LIMITS if p in args), None)
    tol = args.get("tolerance")
    it = d["iter"]
    if d["kind"] == "For":
        if it is not None and it.op == "ext" and it.args[0] in ENDLESS and d["break"] is FALSE:
            o.obligations += 1
            o.violation(key, f"{call}: the loop at {at} runs over {show(it, 3)} and never ends")
            return False
        o.ob(True)
        n = None
        if it is not None and it.op == "ext" and it.args[0] == "range" and 2 <= len(it.args) <= 3:
            n = it.args[1] if len(it.args) == 2 else arith("sub", it.args[2], it.args[1])
    else:
        b = None
        for c in clauses(d):
            b = bounding(c, d)
            if b:
                break
        if b is None:
            if unclear(d, and_(d["test"], d["break"])):
                o.ob(False, f"{key}: loop at {at}: no ranking argument found")
                return True
            if d["test"] is FALSE:
                return True
            o.obligations += 1
            o.violation(key, f"{call}: nothing bounds the number of passes of the loop at {at}: no part of its continuation "
                             f"test {show(d['test'], 5)[:200]} moves by a fixed amount per pass")
            return False
        o.ob(True)
        o.count("ranking arguments")
        n = passes(b, d)
    if limit is not None and limit.op == "sym":
        if n is None:
            o.ob(False, f"{key}: number of passes at {at} unknown")
        else:
            ok = False
            try:
                k = const_of(nf.poly(arith("sub", n, limit)))
                ok = k is not None and -1.001 <= k <= 1.001
            except Exception:
                k = None
            if not ok and not any(x is limit for x in walk(n)) or k is not None and not ok or \
                    k is None and not any(x.op in ("opaque", "loopv", "fix", "ext") for x in walk(n)):
                o.obligations += 1
                o.violation(key + ":limit", f"{call}: the loop at {at} makes up to {show(n, 5)} passes instead of the "
                                            f"{limit.args[0]} the caller asked for")
                return False
            o.ob(ok, f"{key}: passes {show(n, 4)}")
    if tol is not None and tol.op == "sym" and d["kind"] == "While" or tol is not None and tol.op == "sym" and d["break"] is not FALSE:
        cont = goes_on(d)
        has = any(x is tol for x in walk(cont)) or any(x is tol for v in d["mus"] if any(
            y is d["mus"][v] for y in walk(cont)) and v in d["step"] for x in walk(to_node(d["step"][v])))
        if not has:
            o.obligations += 1
            o.violation(key + ":tolerance", f"{call}: the stop test of the loop at {at} does not use the tolerance the caller "
                                            f"asked for: {show(cont, 5)[:200]}")
            return False
        # the test must become easier to pass as the tolerance grows: |change| > tolerance
        ok = None
        for c in conjuncts(cont):
            if any(x is tol for x in walk(c)):
                f, _ = gap(c)
                if f is not None:
                    try:
                        ok = const_of(nf.poly(arith("add", subst(f, {tol.id: num(0)}), neg_(subst(f, {tol.id: num(1)})))))
                    except Exception:
                        ok = None
        if ok is not None and abs(ok - 1) > 1e-9:
            o.obligations += 1
            o.violation(key + ":tolerance", f"{call}: the stop test of the loop at {at} uses {ok:g} times the tolerance: "
                                            f"{show(cont, 5)[:200]}")
            return False
        o.ob(ok is not None, f"{key}: tolerance at {at}")
    if convergent(d) and not (tol is not None and tol.op == "sym"):
        for c in conjuncts(goes_on(d)):
            f, _ = gap(c)
            if f is None or decrease(c, d):
                continue
            t = [x for x in (c.args[1:] if c.op == "cmp" else c.args[0].args[1:]) if x.op == "num"]
            if t:
                o.ob(float(t[0].args[0]) <= 1.0001e-3, None)
                if float(t[0].args[0]) > 1.0001e-3:
                    o.violation(key + ":tolerance", f"{call}: the iteration at {at} stops while results still change by "
                                                    f"{float(t[0].args[0]):g} per pass (at most 0.001)")
                    return False
    if convergent(d) and not (limit is not None and limit.op == "sym") and n is not None and n.op == "num":
        o.ob(float(n.args[0]) >= 100, None)
        if float(n.args[0]) < 100:
            o.violation(key + ":limit", f"{call}: the iteration at {at} gives up after {float(n.args[0]):g} passes")
            return False
    bad = weighed(d, tol)
    if bad:
        o.obligations += 1
        o.violation(key + ":change", f"{call}: the stop test of the loop at {at} {bad}")
        return False
    # first pass
    if d["kind"] == "While":
        t0 = nnf(subst(d["test"], entry(d)))
        fixed = {x.id: num(1000) for x in [limit] if x is not None and x.op == "sym"}
        if tol is not None and tol.op == "sym":
            fixed[tol.id] = num(Fraction(1, 1000))
        t0 = subst(t0, fixed)
        if any(x.op == "inf" for x in walk(t0)):
            o.ob(True)
        elif not any(x.op in ("loopv", "opaque") for x in walk(t0)):
            v = decide.equal_nodes(t0, TRUE, budget=40, points=200, seconds=3) if t0 is not TRUE else decide.Verdict("proved")
            if v.kind == "refuted" and convergent(d) and unrolled(d):
                v = decide.Verdict("proved")
            if v.kind == "refuted" and convergent(d):
                o.obligations += 1
                o.violation(key + ":first", f"{call}: the iteration at {at} is skipped altogether, {v.text()}")
                return False
            o.ob(v.kind == "proved" or not convergent(d), f"{key}: first pass at {at}")
    return True


def weighed(d, tol):
    """what the stop test compares with the tolerance is less than the size of the change made by the pass"""
    m = {mu.id: sym("mu_" + v) for v, mu in d["mus"].items()}
    step = {mu.id: to_node(d["step"][v]) for v, mu in d["mus"].items() if v in d["step"]}
    count = [mu for v, mu in d["mus"].items() if mu.id in step and step[mu.id].op in ("add", "sub") and mu in step[mu.id].args
             and any(isnum(x) for x in step[mu.id].args)]
    for c in conjuncts(goes_on(d)):
        k = c.args[0] if c.op == "not" else c
        if k.op != "cmp" or k.args[0] not in ("<", "<="):
            continue
        lo, hi = k.args[1:] if k is c else k.args[:0:-1]
        if not (tol is not None and lo is tol or isnum(lo) and 0 < float(lo.args[0]) < 0.1) or bounding(c, d):
            continue
        g = step.get(hi.id, hi) if hi.op == "mu" else hi
        if not any(x.op == "mu" for x in walk(g)) or any(x.op in ("opaque", "loopv", "any", "all", "red") for x in walk(g)):
            continue
        if any(x is y for x in walk(g) for y in count):
            return f"weighs the change with the number of passes: {show(g, 4)[:200]}"
        h = subst(g, m)
        v = decide.equal_nodes(mk("cmp", "<", h, num(0)), FALSE, budget=40, points=200, seconds=3)
        if v.kind == "refuted":
            return f"takes a large change in one direction for convergence, {v.text()} (the change is negative versus not)"
        less = []
        for mu in d["mus"].values():
            if mu.id in step and mu not in count and step[mu.id] is not mu:
                q = arith("mul", num(Fraction(999, 1000)), subst(mk("fn", "abs", arith("sub", step[mu.id], mu)), m))
                less.append(decide.equal_nodes(mk("cmp", "<", h, q), FALSE, budget=40, points=200, seconds=3))
        if less and all(v.kind == "refuted" for v in less):
            return f"compares {show(g, 4)[:120]} with the tolerance, which is less than any change of the pass, {less[0].text()}"
    return None


def unrolled(d):
    """the first pass stands in front of the loop: the values carried in are those of one pass of the body"""
    m, rest = {}, []
    for v, st in d["step"].items():
        st, i = to_node(st), d["init"].get(v)
        if i is None:
            continue
        if st.op == "mu":
            m[st.id] = to_node(i)
        elif any(x.op == "mu" for x in walk(st)):
            rest.append((st, to_node(i)))
    for st, i in rest:
        k = subst(st, m)
        if not any(x.op == "mu" for x in walk(k)) and (k is i or decide.equal_nodes(k, i, budget=40, points=100, seconds=3).kind == "proved"):
            return True
        if st.op not in ("add", "sub") or not any(isnum(x) for x in st.args):
            if instance(st, i, {}):
                return True
    return False


def instance(p, n, m):
    """n is the pattern p with its loop variables replaced"""
    if p.op == "mu":
        if p.id in m:
            return m[p.id] is n
        m[p.id] = n
        return True
    if p is n:
        return True
    if p.op != n.op or len(p.args) != len(n.args):
        return False
    for order in ([n.args, n.args[::-1]] if p.op in ("add", "mul", "and", "or") else [n.args]):
        k = dict(m)
        if all(instance(x, y, k) if isinstance(x, Node) and isinstance(y, Node) else x == y for x, y in zip(p.args, order)):
            m.update(k)
            return True
    return False


def neg_(n):
    return arith("sub", num(0), n)


def convergent(d):
    once = {mu.id: to_node(d["step"][v]) for v, mu in d["mus"].items() if v in d["step"]}
    t = goes_on(d)
    return any(x.op == "fn" and x.args[0] == "abs" for y in (t, subst(t, once)) for x in walk(y))


def strip(n):
    """replace reductions over elements by the element itself"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op in ("any", "all"):
            r = go(x.args[0])
        elif x.op == "red" and len(x.args) == 2:
            r = go(x.args[1])
        elif x.op == "idx" and isinstance(x.args[1], Node) and isnum(x.args[1]):
            r = go(x.args[0])
        elif any(isinstance(a, Node) for a in x.args):
            r = rebuild(x, [go(a) if isinstance(a, Node) else a for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(n)


def check_lanes(s, e, A, names, o, key, call):
    d = e.data
    if not convergent(d):
        return True
    cont = goes_on(d)
    names = set(names)
    m = {}
    for v, mu in d["mus"].items():
        m[mu.id] = sym("mu_" + v)
        if A.interp.mu_arr.get(mu.id):
            names.add("mu_" + v)
    once = {}
    for v, mu in d["mus"].items():
        st = to_node(d["step"][v]) if v in d["step"] else None
        if st is not None and not A.interp.mu_arr.get(mu.id) and any(x.op == "red" for x in walk(st)) and not any(
                x.op in ("any", "all", "opaque", "loopv", "fix", "idx", "elem") for x in walk(st)):
            once[mu.id] = st        # the difference is reduced to one number inside the loop body
    c = subst(subst(cont, once), m)
    try:
        full = lanes(c, names, 0)
        el = strip(c)
        l0, l1 = lanes(el, names, 0), lanes(el, names, 1)
    except (Coupled, RecursionError):
        o.ob(False, f"{key}: stop test at {e.at()} over arrays")
        return True
    if l0 is l1:
        return True
    o.count("stop tests over arrays")
    v = decide.equal_nodes(full, or_(truth(l0), truth(l1)), budget=40, points=400, seconds=4)
    if v.kind == "refuted":
        o.obligations += 1
        o.violation(key + ":lanes", f"{call} with arrays: the loop at {e.at()} may stop while one element has not converged "
                                    f"{v.text()} (goes on versus an element has not converged)")
        return False
    gone = {x.id: NAN for x in walk(full) if x.op == "sym" and x.args[0].endswith("__b")}
    fn = subst(full, gone)
    w = decide.equal_nodes(fn, l0, budget=40, points=400, seconds=4)
    if w.kind == "refuted":
        o.obligations += 1
        o.violation(key + ":nan", f"{call} with arrays: one element that becomes NaN ends the loop at {e.at()} for the others "
                                  f"too, {w.text()} (goes on versus this element has not converged)")
        return False
    o.ob(v.kind == "proved" and w.kind == "proved", f"{key}: stop test at {e.at()} over arrays")
    return True


def check_function(s):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    sig = R.signature(s)
    prs = profiles(sig, limit=60)
    coef = [p for p in prs if p.label.endswith("|coef")]
    for pr in (coef or [p for p in prs if p.label.endswith("|default")]):
        try:
            r = R.run(s, pr.args)
        except RecursionError:
            o.ob(False, f"{s} [{pr.label}] recursion limit")
            continue
        call = f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}"
        loops = [e for e in r.events if e.kind == "loop"]
        for e in r.events:
            if e.kind == "recursion":
                o.obligations += 1
                if e.data[1]:
                    o.violation(f"{s}:{e.data[0]}", f"{call}: {e.data[0]} calls itself with unchanged arguments at {e.at()}")
                    return o
                o.undecided.append(f"{s} [{pr.label}] recursion of {e.data[0]}")
        if not any(e.kind == "recursion" for e in r.events):
            o.ob(True)
        for e in loops:
            if not check_loop(s, e, pr.args, o, f"{s}:{e.module.rpartition('/')[2]}:{e.func}", call):
                return o
        if loops and r.value is not BOT:
            names = numeric(sig, pr.args)
            A = side(names)
            try:
                ra = A.run(s, pr.args)
            except RecursionError:
                continue
            if ambiguous(ra, names) is None:
                for e in ra.events:
                    if e.kind == "loop":
                        if not check_lanes(s, e, A, names, o, f"{s}:{e.module.rpartition('/')[2]}:{e.func}", call):
                            return o
    return o


def minimum(pid):
    return 250


def units(pid, tier):
    return [Unit(s, (check_function, s), weight=2 if "runup" in s or "overtopping" in s else 1) for s in functions()]
