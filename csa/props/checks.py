"""Validity-range checks: for every call shape the set of (condition, checked quantity, bounds, label) events of a
function equals that of the reference; compared as the condition under which a warning about a quantity is issued."""
import itertools
import time

from ..compare import repo_side, ref_side, raise_cond
from ..graph import Node, mk, sel, num, and_, or_, not_, TRUE, FALSE, show, NONE, NAN, walk
from ..interp import BOT, to_node, compare, Tup, truth
from .. import nf, decide, identity
from ..report import Unit, Outcome
from . import arrays
from .conform import GROUPS, ref_functions, groups_of, restrict_to, subsumed, joint_signature

ALL = [p for g in GROUPS.values() for p in g]


def text(n):
    return n.args[0] if isinstance(n, Node) and n.op == "str" else "?" if n is None else show(to_node(n), 4)


class Ev:
    def __init__(self, e, live=TRUE):
        d = list(e.data) + [None] * 5
        self.label, self.formula = text(d[0]), text(d[1])
        self.v, self.lo, self.hi = (to_node(x) if x is not None else NONE for x in d[2:5])
        self.cond, self.e = and_(e.cond, live), e
        if live is not TRUE:
            self.v = sel(live, self.v, num(0)) if not nf.is_special(self.v) and self.v.op != "bool" else self.v

    def warns(self):
        lo, hi = self.lo, self.hi
        c = FALSE
        if lo.op != "inf":
            c = or_(c, compare("<", self.v, lo))
        if hi.op != "inf":
            c = or_(c, compare("<", hi, self.v))
        return and_(self.cond, c)


def collect(res, live=TRUE):
    """checks performed by calls that return (a call that raises delivers no result to warn about)"""
    out = []
    for e in res.events:
        if e.kind == "check" and not e.inloop and e.cond is not FALSE:
            x = Ev(e, live)
            if x.cond is not FALSE:
                out.append(x)
    return out


def group(evs):
    g = {}
    for e in evs:
        g.setdefault(e.label, []).append(e)
    return g


def union(evs):
    c = FALSE
    for e in evs:
        c = or_(c, e.warns())
    return c


def same_bound(a, b):
    if a is b:
        return True
    if a.op in ("inf",) or b.op in ("inf",):
        return False
    if a.op == "bool" or b.op == "bool":
        return a is b
    try:
        return nf.peq(nf.poly(a), nf.poly(b))
    except Exception:
        return False


def eq(a, b, seconds=4):
    if a is b:
        return decide.Verdict("proved", by="identical")
    try:
        return decide.equal_nodes(a, b, budget=60, points=300, seconds=seconds)
    except RecursionError:
        return decide.Verdict("undecided")


def uniq(evs):
    out = []
    for e in evs:
        if not any(x.cond is e.cond and x.v is e.v and x.lo is e.lo and x.hi is e.hi for x in out):
            out.append(e)
    return out


def compare_group(ga, gb):
    """repo events, reference events with one label -> ('proved'|'undecided', '') or ('refuted', text)"""
    ga, gb = uniq(ga), uniq(gb)
    if len(ga) == len(gb) == 1:
        a, b = ga[0], gb[0]
        va = eq(a.v, b.v)
        ca = eq(a.cond, b.cond)
        lo, hi = same_bound(a.lo, b.lo), same_bound(a.hi, b.hi)
        if va.kind == "proved" and ca.kind == "proved":
            if lo and hi:
                return "proved", ""
            if all(x.op in ("num", "inf", "neg", "bool") for x in (a.lo, a.hi, b.lo, b.hi)):
                return "refuted", (f"bounds [{show(a.lo, 3)}, {show(a.hi, 3)}] instead of "
                                   f"[{show(b.lo, 3)}, {show(b.hi, 3)}] for {show(a.v, 5)}")
        if va.kind == "proved" and lo and hi and ca.kind == "refuted":
            return "refuted", f"performed under another condition: {ca.text()}"
        if ca.kind == "proved" and lo and hi and va.kind == "undecided":
            return "undecided", ""
        w = eq(a.warns(), b.warns())
        if w.kind == "refuted":
            more = f"; checked quantity {va.text()}" if va.kind == "refuted" else ""
            return "refuted", f"warning issued {w.text()} (repository versus reference){more}"
        if w.kind == "undecided" and va.kind == "refuted":
            r = identity.refute(a.warns(), b.warns(), n=4000, seed=3)
            if r is not None:
                return "refuted", f"warning issued {r.text()} (repository versus reference)"
        return w.kind, ""
    # several events under one label: pairwise if possible, else as a union
    if len(ga) == len(gb):
        left = list(gb)
        ok = True
        for a in ga:
            for b in left:
                if same_bound(a.lo, b.lo) and same_bound(a.hi, b.hi) and eq(a.v, b.v).kind == "proved" \
                        and eq(a.cond, b.cond).kind == "proved":
                    left.remove(b)
                    break
            else:
                ok = False
        if ok:
            return "proved", ""
    w = eq(union(ga), union(gb))
    if w.kind != "refuted":
        r = identity.refute(union(ga), union(gb), n=1500, seed=3) if w.kind != "proved" else None
        if r is None:
            return w.kind, ""
        w = decide.Verdict("refuted", r)
    return "refuted", f"warning issued {w.text()} (repository versus reference)"


def one(s, pr, o):
    R, F = repo_side(), ref_side()
    b = F.run(s, restrict_to(s, F, pr.args))
    if isinstance(b.value, Node) and b.value is NAN or b.value is BOT:
        return "skip"
    a = R.run(s, pr.args)
    fn = R.fn(s)
    where = f"{fn.module.rel}:{fn.node.lineno} {s} called with {{{', '.join(sorted(pr.args))}}}"
    if a.value is BOT:
        return "skip"
    live = not_(or_(raise_cond(a), raise_cond(b)))
    ga, gb = group(collect(a, live)), group(collect(b, live))
    looped = {e.at() for e in a.events if e.kind == "check" and e.inloop}
    res = "proved"
    miss = [l for l in gb if l not in ga]
    extra = [l for l in ga if l not in gb]
    for l in [l for l in gb if l in ga]:
        k, t = compare_group(ga[l], gb[l])
        if k == "refuted":
            # the first pass of an iteration in front of its loop makes the checks of the loop once more
            us = uniq(ga[l])
            drop = [x for x in us if x.e.at() in looped]
            for n in range(1, min(len(drop), 3) + 1):
                for q in itertools.combinations(drop, n):
                    rest = [x for x in us if x not in q]
                    if k == "refuted" and rest and compare_group(rest, gb[l])[0] != "refuted":
                        k = "undecided"
        o.count("checks compared")
        site = ga[l][0].e.at()
        if k == "refuted":
            o.violation(f"{s}:{l}", f"{where}: validity check of '{l}' ({site}): {t}")
            return "refuted"
        o.ob(k == "proved", f"{s} [{pr.label}] check '{l}'")
        if k != "proved":
            res = "undecided"
        fa, fb = {e.formula for e in ga[l]}, {e.formula for e in gb[l]}
        if "?" not in fa and fa != fb and not any("(" in x and x not in fb for x in ()):
            o.violation(f"{s}:{l}:formula", f"{where}: the warning about '{l}' names formula {sorted(fa)} instead of {sorted(fb)}")
            return "refuted"
    for l in list(miss):
        for x in list(extra):
            k, t = compare_group(ga[x], gb[l])
            if k == "proved":
                other = {q for q in all_labels(s) if q != l}
                if x in other:
                    o.violation(f"{s}:{l}:label", f"{where}: the check of '{l}' reports the name of another quantity, '{x}'")
                    return "refuted"
                miss.remove(l)
                extra.remove(x)
                o.ob(True)
                o.count("renamed labels")
                break
    for l in miss:
        o.obligations += 1
        w = union(gb[l])
        # some input must make the reference warn
        o.violation(f"{s}:{l}", f"{where}: no validity check of '{l}' (range [{show(gb[l][0].lo, 3)}, {show(gb[l][0].hi, 3)}])"
                                f" is performed")
        return "refuted"
    for l in extra:
        if all(x.e.at() in looped for x in ga[l]):
            o.ob(False, f"{s} [{pr.label}] check '{l}' of an iteration")
            continue
        o.obligations += 1
        r = identity.refute(or_(union(ga[l]), union([e for g in gb.values() for e in g])),
                            union([e for g in gb.values() for e in g]), n=600)
        if r is not None:
            o.violation(f"{s}:{l}", f"{where}: warns about '{l}' ({ga[l][0].e.at()}) although every documented range is "
                                    f"met, {r.text()}")
            return "refuted"
    return res


_lab = {}


def all_labels(s):
    """labels the reference uses in the module of s"""
    m = s.rpartition(".")[0]
    if m not in _lab:
        F = ref_side()
        out = set()
        for f in F.functions(m):
            for lab, prs in groups_of(f"{m}.{f}", 60)[-1:]:
                try:
                    r = F.run(f"{m}.{f}", restrict_to(f"{m}.{f}", F, prs[0].args))
                except Exception:
                    continue
                out |= {Ev(e).label for e in r.events if e.kind == "check"}
        _lab[m] = out
    return _lab[m]


def check_function(s, labels):
    R = repo_side()
    o = Outcome()
    o.functions.add(s)
    if not R.has(s):
        o.violation(s, f"public function {s} of the toolbox no longer exists")
        return o
    sub = subsumed(joint_signature(s), R.signature(s))
    for lab, prs in groups_of(s):
        if lab not in labels:
            continue
        for i, pr in enumerate(prs):
            v = one(s, pr, o)
            o.count("call shapes")
            if v == "refuted":
                return o
            if sub:
                break
    return o


def check_arrays(s):
    """a call with arrays warns about a quantity exactly when some element's scalar call does"""
    o = Outcome()
    o.functions.add(s)
    R = repo_side()
    if not R.has(s):
        return o
    sig = R.signature(s)
    for pr in arrays.shapes(s):
        sc = R.run(s, pr.args)
        if sc.value is BOT:
            continue
        names = [p for p in arrays.numeric(sig, pr.args) if arrays.classify(dict(sig)[p]) != "coef"]
        if not names:
            continue
        try:
            r = arrays.side(names).run(s, pr.args)
        except RecursionError:
            continue
        if r.value is BOT or arrays.ambiguous(r, names) is not None:
            continue
        shape = any(e.kind in ("shape", "unsupported") for e in r.events)
        ga, gb = group(collect(r)), group(collect(sc))
        live = not_(or_(raise_cond(sc), raise_cond(r)))
        for l in sorted(set(ga) | set(gb)):
            x, y = and_(live, union(ga.get(l, []))), and_(live, union(gb.get(l, [])))
            if x is y and not any(arrays.coupled(n) for n in (x,)):
                o.ob(True)
                continue
            try:
                w = [or_(*(truth(arrays.lanes(n, set(names), k)) for k in (0, 1))) for n in (x, y)]
                v = eq(*w)
            except (arrays.Coupled, RecursionError):
                v = decide.Verdict("undecided")
            if v.kind == "refuted" and (shape or any(z.op in ("loopv", "opq") for q in w for z in walk(q))):
                v = decide.Verdict("undecided")
            if v.kind == "refuted":
                fn = R.fn(s)
                e = (ga.get(l) or gb.get(l))[0].e.at()
                o.obligations += 1
                o.violation(f"{s}:{l}:array", f"{fn.module.rel}:{fn.node.lineno} {s} called with arrays for {', '.join(names)}: the "
                                              f"validity check of '{l}' ({e}) does not warn exactly when an element is out of "
                                              f"range: {v.text()} (array call versus its elements; name__b is the second element)")
                return o
            o.ob(v.kind == "proved", f"{s} [{pr.label}] array check '{l}'")
        o.count("array call shapes")
    return o


def has_checks(s):
    F = ref_side()
    for lab, prs in groups_of(s):
        try:
            r = F.run(s, restrict_to(s, F, prs[0].args))
        except Exception:
            continue
        if any(e.kind == "check" for e in r.events):
            return True
    return False


def units(pid, tier):
    out = []
    for s in ref_functions(ALL):
        f = s.rpartition(".")[2]
        isc = f.startswith("check_")
        if isc != (pid == "C06"):
            continue
        if pid == "C06" and not has_checks(s):
            continue
        labs = [l for l, _ in groups_of(s)]
        n = 6
        chunks = [labs[i::n] for i in range(n)] if len(labs) > 12 else [labs]
        for i, c in enumerate(chunks):
            out.append(Unit(f"{s}#{i}", (check_function, s, c), weight=len(c)))
        out.append(Unit(f"{s}#arrays", (check_arrays, s), weight=4))
    return out
