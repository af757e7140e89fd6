"""Warnings other than the range warnings: issued exactly in the documented situations, in no other, and visibly."""
import itertools
from fractions import Fraction

from ..api import functions, where, missing
from ..compare import repo_side, profiles, raise_cond, errors
from ..graph import mk, num, sym, TRUE, FALSE, NAN, NONE, and_, or_, not_, walk, show, syms, Node
from ..interp import arith, compare, to_node, subst, Ext, BOT, truth
from .. import decide, identity
from ..report import Unit, Outcome
from . import arrays
from .loops import nnf, clauses, conjuncts

TAW = "hydraulic.wave_overtopping.taw2002."
ET = "structural.stability_rock_armour.etemadshahidi2020."
VG = "structural.stability_rock_rear.vangent2007."
VP = "structural.stability_rock_rear.vangentpozueta2004."
TK = "structural.stability_toe_berm.takahashi1990_caisson."


def given(a, p):
    return p in a


def sigma(a):
    s = a.get("sigma", num(0))
    return and_(not_(compare("==", s, num(0))), not_(a.get("use_best_fit", FALSE)))


def density(size, mass, rho):
    def f(a):
        return TRUE if mass in a and size not in a and rho not in a else FALSE
    return f


def core(a):
    """core density assumed: only where the permeability of the core enters"""
    if "M50_core" not in a or "Dn50_core" in a or "rho_core" in a:
        return FALSE
    return TRUE if "m" in a else not_(a.get("use_depth_limited_version", FALSE))


def none(a):
    return FALSE


DUE = {TAW + f: sigma for f in ("calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q",
                                "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard")}
DUE.update({ET + f: core for f in ("calculate_damage_number_S", "calculate_nominal_rock_diameter_Dn50",
                                   "calculate_significant_wave_height_Hs")})
DUE[VG + "calculate_damage_number_S"] = density("Dn50", "M50", "rho_rock")
DUE[VG + "calculate_maximum_significant_wave_height_Hs"] = density("Dn50", "M50", "rho_rock")
DUE["core_physics.check_usage_Dn50_or_M50"] = density("Dn50", "M50", "rho_rock")
LIMIT = {VG + "calculate_maximum_significant_wave_height_Hs", VP + "calculate_maximum_significant_wave_height_Hs"}
PRECISION = {TK + "calculate_significant_wave_height_Hs": Fraction(1, 1000)}
HIDDEN = ("DeprecationWarning", "PendingDeprecationWarning", "ImportWarning", "ResourceWarning")


def union(es):
    c = FALSE
    for e in es:
        c = or_(c, e.cond)
    return c


def counters(n):
    return [x for x in walk(n) if x.op in ("fix", "counter") or exhausted(x)]


def exhausted(x):
    """the else branch of a loop"""
    return x.op == "truth" and isinstance(x.args[0], Node) and x.args[0].op == "ext" and x.args[0].args[0] == "no break"


def whole(got, want):
    """compare two conditions on a number of passes at whole numbers, where < and <= differ"""
    names = sorted({x.args[0] for t in (got, want) for x in walk(t) if x.op == "sym"})
    if len(names) > 3 or "n_passes" not in names:
        return None
    for v in itertools.product(range(7), repeat=len(names)):
        env = {("sym", x): float(y) for x, y in zip(names, v)}
        try:
            a, b = identity.Eval(env)(got), identity.Eval(env)(want)
        except Exception:
            continue
        if isinstance(a, bool) and isinstance(b, bool) and a is not b:
            return f"{'issued' if a else 'not issued'} at " + ", ".join(f"{x}={y}" for x, y in zip(names, v))
    return None


def limit_rule(s, pr, r, ws, o):
    """the loop was left because of its iteration limit <=> warning"""
    w = f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}"
    loops = [e for e in r.events if e.kind == "loop" and e.data.get("kind") in ("While", "For") and e.cond is not FALSE]
    dead = raise_cond(r)
    if dead is TRUE or not loops:
        return
    c = union(ws)
    if c is FALSE or c is TRUE:
        if any(e.kind in ("unsupported",) for e in r.events):
            return o.ob(False, f"{s} [{pr.label}]: limit warning")
        o.obligations += 1
        return o.violation(s + ":limit", f"{w}: " + ("no warning when the iteration limit is reached without convergence"
                           if c is FALSE else "warning about the iteration limit also after convergence"))
    cs = counters(c)
    if len(cs) != 1 or len(ws) != 1:
        return o.ob(False, f"{s} [{pr.label}]: form of the limit warning not recognised")
    if exhausted(c):
        ok = any(e.data["break"] is not FALSE and mk("ext", "no break", e.data["test"], e.data["iter"] or NONE) is c.args[0]
                 and "max_iterations" in syms(c) for e in loops)
        return o.ob(ok, f"{s} [{pr.label}]: limit of the loop of the warning")
    k = sym("n_passes")
    got = subst(c, {cs[0].id: k})
    for e in loops:
        d = e.data
        if cs[0].op == "counter":
            # the loop variable of a range, after the loop: its last value says whether the range was used up
            it = d["iter"]
            if d.get("uid") is not cs[0].args[0] or it is None or it.op != "ext" or it.args[0] != "range" or not 2 <= len(it.args) <= 3:
                continue
            lo, hi = it.args[1:] if len(it.args) == 3 else (num(0), it.args[1])
            want = mk("cmp", "<=", arith("sub", hi, num(1)), k)
            off = or_(mk("cmp", "<", k, lo), mk("cmp", "<=", hi, k))
            bad = whole(or_(off, got), or_(off, want))
            if bad:
                o.obligations += 1
                return o.violation(s + ":limit", f"{w}: the warning at {ws[0].at()} is not tied to the iteration limit: {bad}")
            q = decide.equal_nodes(got, want, budget=100, points=200)
            return o.ob(q.kind == "proved", f"{s} [{pr.label}]: limit warning")
        for v, mu in d["mus"].items():
            st = d["step"].get(v)
            if st is None or mk("fix", cs[0].args[0], subst(to_node(st), {mu.id: mk("bv", cs[0].args[0])})) is not cs[0]:
                continue
            lims = [x for x in clauses(d) if any(y is mu for y in walk(x)) and
                    not any(y.op == "mu" and y is not mu for y in walk(x))]
            if len(lims) != 1:
                continue
            # a test at the head of the loop sees the counter before the pass, one kept in a flag or made at the end after it
            head = any(x is lims[0] for x in conjuncts(d["test"]))
            late = not head and (d["break"] is FALSE or (d["break_env"] or {}).get(v) is st)
            x = subst(lims[0], {to_node(st).id: k}) if late else lims[0]
            want = not_(subst(x, {mu.id: k}))
            bad = whole(got, want)
            if bad:
                o.obligations += 1
                return o.violation(s + ":limit", f"{w}: the warning at {ws[0].at()} is not tied to the iteration limit: {bad}")
            q = decide.equal_nodes(got, want, budget=100, points=200)
            if q.kind == "refuted":
                o.obligations += 1
                return o.violation(s + ":limit", f"{w}: the warning at {ws[0].at()} is not tied to the iteration limit, "
                                                 f"{q.text()} (issued versus loop left at its limit)")
            return o.ob(q.kind == "proved", f"{s} [{pr.label}]: limit warning")
    o.ob(False, f"{s} [{pr.label}]: loop of the limit warning not found")


def precision_rule(s, pr, r, ws, o):
    w = f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}"
    c = nnf(union(ws))
    if raise_cond(r) is TRUE:
        return
    if c is FALSE or c is TRUE:
        o.obligations += 1
        return o.violation(s + ":precision", f"{w}: precision of the search is " + ("never" if c is FALSE else "always") + " warned about")
    neg = c.op == "not"
    x = c.args[0] if neg else c
    if x.op == "cmp" and x.args[0] in ("<", "<="):
        a, b = x.args[1], x.args[2]
        small = a.op == "fn" and a.args[0] == "abs" or a.op == "abs"
        big = b.op == "fn" and b.args[0] == "abs" or b.op == "abs"
        t = b if small else a if big else None
        if t is not None and t.op == "num":
            o.obligations += 1
            if t.args[0] != PRECISION[s] or small is not neg:
                return o.violation(s + ":precision", f"{w}: warning at {ws[0].at()} not tied to a difference above 0.001 m: {show(c, 3)}")
            o.proved += 1
            return
    o.ob(False, f"{s} [{pr.label}]: form of the precision warning not recognised")


def check_function(s, part, parts):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    for pr in profiles(R.signature(s), limit=400)[part::parts]:
        try:
            r = R.run(s, pr.args)
        except RecursionError:
            o.ob(False, f"{s} [{pr.label}]: recursion limit")
            continue
        o.count("call shapes")
        ws = [e for e in r.events if e.kind == "warn"]
        for e in ws:
            cat = e.data.get("category")
            if isinstance(cat, Ext) and cat.name.split(".")[-1] in HIDDEN:
                o.obligations += 1
                o.violation(s + ":category", f"{e.at()}: warning category {cat.name} is hidden by default")
                return o
        if errors(r):
            continue
        if s in PRECISION:
            precision_rule(s, pr, r, ws, o)
            if o.findings:
                return o
            continue
        special = [e for e in ws if s in LIMIT and counters(e.cond)]
        if s in LIMIT:
            rest = [e for e in ws if e not in special]
            if not special and union(rest) is not DUE.get(s, none)(pr.args):
                limit_rule(s, pr, r, rest, o)
                if o.findings:
                    return o
                continue
            limit_rule(s, pr, r, special, o)
            if o.findings:
                return o
            ws = rest
        live = not_(raise_cond(r))
        want = and_(DUE.get(s, none)(pr.args), live)
        got = and_(union(ws), live)
        if got is want:
            o.ob(True)
            continue
        if any(e.kind == "unsupported" for e in r.events):
            o.ob(False, f"{s} [{pr.label}]: not analysed completely")
            continue
        k = decide.equal_nodes(got, want, budget=100, points=200, seconds=10)
        if k.kind == "refuted":
            o.obligations += 1
            at = ws[0].at() if ws else "no place"
            o.violation(s, f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}: warning issued at {at} {k.text()} "
                           f"(issued versus due)")
            return o
        o.ob(k.kind == "proved", f"{s} [{pr.label}]: warning condition")
    return o


def check_arrays(s):
    """a call with arrays gives the advisory warning exactly when some element's scalar call does"""
    o = Outcome()
    o.functions.add(s)
    R = repo_side()
    if not R.has(s):
        return o
    sig = R.signature(s)
    for pr in arrays.shapes(s):
        sc = R.run(s, pr.args)
        names = [p for p in arrays.numeric(sig, pr.args) if arrays.classify(dict(sig)[p]) != "coef"]
        if sc.value is BOT or not names:
            continue
        try:
            r = arrays.side(names).run(s, pr.args)
        except RecursionError:
            continue
        if r.value is BOT or arrays.ambiguous(r, names) is not None:
            continue
        live = not_(or_(raise_cond(sc), raise_cond(r)))
        x, y = (and_(live, union([e for e in q.events if e.kind == "warn"])) for q in (r, sc))
        if x is y and not arrays.coupled(x):
            o.ob(True)
            continue
        try:
            w = [or_(*(truth(arrays.lanes(n, set(names), k)) for k in (0, 1))) for n in (x, y)]
            if any(z.op in ("loopv", "opq", "fix", "mu") for q in w for z in walk(q)) \
                    or any(e.kind in ("shape", "unsupported") for e in r.events):
                raise arrays.Coupled
            v = decide.equal_nodes(*w, budget=60, points=300, seconds=6)
        except (arrays.Coupled, RecursionError):
            o.ob(False, f"{s} [{pr.label}]: warning of array calls")
            continue
        if v.kind == "refuted":
            o.obligations += 1
            o.violation(s + ":array", f"{where(s)} called with arrays for {', '.join(names)}: the advisory warning is not given exactly "
                                      f"when an element's scalar call gives it: {v.text()} (array call versus elements)")
            return o
        o.ob(v.kind == "proved", f"{s} [{pr.label}]: warning of array calls")
    return o


def minimum(pid):
    return 1500


def units(pid, tier):
    R = repo_side()
    out = []
    for s in functions():
        n = len(profiles(R.signature(s), limit=400)) if R.has(s) else 1
        k = 1 + n // 60
        out += [Unit(f"{s}#{i}", (check_function, s, i, k), weight=n / k) for i in range(k)]
        out.append(Unit(f"{s}#arrays", (check_arrays, s), weight=4))
    return out
