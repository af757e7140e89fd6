"""Conformance of every public function with the reference formulas (value, raised errors, defaults)."""
import time

from ..compare import (PKG, Side, repo_program, repo_side, ref_side, profiles, raise_cond, errors, wrap, classify, Profile, RAISED)
from ..graph import Node, mk, sym, NAN, NONE, FALSE, TRUE, or_, num, show
from ..interp import BOT, Tup, Dct, to_node, arith
from .. import nf, decide
from ..report import Unit, Outcome

GROUPS = {
    "F01": ["core_physics"],
    "F02": ["hydraulic.wave_overtopping."],
    "F03": ["hydraulic.wave_runup."],
    "F04": ["hydraulic.wave_transmission."],
    "F05": ["structural.stability_rock_armour."],
    "F06": ["structural.stability_concrete_armour."],
    "F07": ["structural.stability_rock_rear.", "structural.stability_toe_berm."],
    "F08": ["structural.forces_caisson.", "structural.forces_crestwall."],
}


def ref_modules(prefixes):
    F = ref_side()
    out = []
    for mn in sorted(F.prog.modules):
        ms = mn[len("ref.functions."):] if mn.startswith("ref.functions.") else None
        if ms and any(ms == p or ms.startswith(p) and p.endswith(".") for p in prefixes):
            out.append(ms)
    return out


def ref_functions(prefixes):
    F = ref_side()
    return [f"{ms}.{f}" for ms in ref_modules(prefixes) for f in F.functions(ms)]


def joint_signature(s):
    """parameters a caller may use: those of the reference (all of the repository's if the reference takes **kw)"""
    R, F = repo_side(), ref_side()
    fs = F.signature(s)
    if F.fnode(s).args.kwarg is not None:
        have = {p for p, _ in fs}
        return fs + [(p, d) for p, d in R.signature(s) if p not in have]
    return fs


def restrict_to(s, side, args):
    fn = side.fnode(s)
    if fn.args.kwarg is not None:
        return args
    names = {p for p, _ in side.signature(s)}
    return {k: v for k, v in args.items() if k in names}


def outcome_value(res):
    """value with RAISED wherever the call ends in an exception"""
    c = raise_cond(res)
    for e in errors(res):
        c = or_(c, e.cond)
    return wrap(res.value, c)


def same_default(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Node) and isinstance(b, Node):
        if a.op == "num" and b.op == "num":
            return abs(float(a.args[0]) - float(b.args[0])) <= 1e-12 * abs(float(b.args[0]))
        try:
            return not nf.is_special(a) and not nf.is_special(b) and nf.peq(nf.poly(a), nf.poly(b))
        except Exception:
            return False
    return decide.equal_values(a, b).kind == "proved"


def subsumed(sig, rsig):
    """default profiles follow from the symbolic one: same defaults, and the symbolic proof covers the default value"""
    rd = dict(rsig)
    for p, d in sig:
        k = classify(d)
        if k in ("coef", "flag", "str"):
            if not same_default(rd.get(p), d):
                return False
            if k == "coef":
                if not (isinstance(d, Node) and d.op == "num" and (d.args[0] > 0 or not nf.is_pos_name(p))):
                    return False
    return True


def groups_of(s, limit=400):
    """profiles grouped per set of supplied optional inputs: [(label, [profiles])]"""
    sig = joint_signature(s)
    g = {}
    for pr in profiles(sig, limit=limit):
        lab, _, kind = pr.label.rpartition("|")
        g.setdefault(lab, []).append(pr)
    return list(g.items())


def check_function(s, labels=None, seconds=40, deadline=None):
    R, F = repo_side(), ref_side()
    o = Outcome()
    o.functions.add(s)
    if not R.has(s):
        o.violation(s, f"public function {s} of the toolbox no longer exists")
        o.obligations += 1
        return o
    sub = subsumed(joint_signature(s), R.signature(s))
    for lab, prs in groups_of(s):
        if labels is not None and lab not in labels:
            continue
        for i, pr in enumerate(prs):
            if deadline and time.time() > deadline:
                o.ob(False, f"{s} [{pr.label}]: not analysed, time limit")
                continue
            v = one(s, pr, o, seconds, prove=not (sub and i))
            if v == "refuted":
                return o
            if v == "proved" and sub and i == 0:
                break
    return o


def one(s, pr, o, seconds=40, prove=True):
    R, F = repo_side(), ref_side()
    b = F.run(s, restrict_to(s, F, pr.args))
    if isinstance(b.value, Node) and b.value is NAN:
        o.count("profiles the reference leaves unspecified")
        return "skip"
    a = R.run(s, pr.args)
    if b.value is NONE and a.value is NONE and raise_cond(a) is FALSE and raise_cond(b) is FALSE and not errors(a):
        o.count("call shapes returning nothing (checks only, see C04 and C06)")
        return "proved"
    va, vb = outcome_value(a), outcome_value(b)
    un = [e for e in a.events if e.kind == "unsupported"]
    try:
        v = decide.equal_values(va, vb, seconds=seconds, budget=120, prove=prove)
    except RecursionError:
        v = decide.Verdict("undecided", "recursion limit")
    if not prove and v.kind == "undecided":
        return "skip"   # an instance of the symbolic call shape, counted there
    o.obligations += 1
    o.count("decided by " + (v.by or v.kind))
    if v.kind == "proved":
        o.proved += 1
        if len(o.samples) < 2:
            o.samples.append(f"{s}({', '.join(sorted(pr.args))}) == reference [{v.by}]")
        return "proved"
    if v.kind == "refuted":
        kn = "known_wrong__" + s.rpartition(".")[2]
        ks = s.rpartition(".")[0] + "." + kn
        if F.has(ks):
            k = F.run(ks, restrict_to(ks, F, pr.args))
            w = decide.equal_values(va, outcome_value(k))
            if w.kind == "proved":
                o.known.append((s, f"{s} [{pr.label}]: {v.text()}"))
                return "known"
        fn = R.fn(s)
        extra = ""
        ev = [e for e in errors(a)]
        if ev:
            extra = "; call fails: " + "; ".join(f"{e.kind} {e.data} at {e.at()}" for e in ev[:3])
        o.violation(s, f"{fn.module.rel}:{fn.node.lineno} {s} called with {{{', '.join(sorted(pr.args))}}} does not "
                       f"return the reference value: {v.text()} (repository versus reference){extra}")
        return "refuted"
    o.undecided.append(f"{s} [{pr.label}]: no proof, no counter-example" + (f"; {len(un)} unsupported constructs" if un else ""))
    return "undecided"


TK = "structural.stability_toe_berm.takahashi1990_caisson."
SEARCH = {TK + "calculate_significant_wave_height_Hs": "Hs", TK + "calculate_significant_depth_above_toe_hacc": "hacc"}


def check_search(s, varied):
    """a table search: each evaluation of the stability number takes the caller's inputs, only the sought one varies, and the
    stability relation is used with the caller's diameter and densities"""
    o = Outcome()
    o.functions.add(s)
    R = Side(repo_program(), PKG)
    if not R.has(s):
        o.obligations += 1
        o.violation(s, f"public function {s} of the toolbox no longer exists")
        return o
    seen = []

    def stub(kind):
        def f(it, fn, args, kwargs, site):
            env, err = it.bind(fn, args, kwargs, site)
            if err:
                return NAN
            seen.append((kind, {k: to_node(v) for k, v in env.items()}, getattr(site, "lineno", 0)))
            n = mk("ext", kind, *[to_node(v) for v in env.values()])
            return n if kind == "Ns" else Tup([n, mk("str", kind)])
        return f
    R.interp.intercept[R.qual(TK + "calculate_stability_number_Ns")] = stub("Ns")
    R.interp.intercept[R.qual("core_physics.check_usage_stabilitynumber")] = stub("usage")
    sig = R.signature(s)
    R.run(s, {p: sym(p) for p, _ in sig})
    names = {p for p, _ in sig}
    fn = R.fn(s)
    delta = arith("sub", arith("div", sym("rho_rock"), sym("rho_water")), num(1))
    ns = {k for k, e, _ in seen}
    if "Ns" not in ns:
        o.ob(False, f"{s}: no evaluation of the stability number found")
        return o
    for kind, e, line in seen:
        for p, v in sorted(e.items()):
            if kind == "Ns" and p != varied and p in names:
                w = sym(p)
            elif kind == "usage" and v is not NONE and p in ("Dn", "Delta", "Hs") and not (p == "Hs" and varied == "Hs"):
                w = {"Dn": sym("Dn50"), "Delta": delta, "Hs": sym("Hs")}[p]
            else:
                continue
            r = decide.equal_values(v, w, seconds=5)
            if r.kind == "refuted":
                o.obligations += 1
                o.violation(f"{s}:{kind}:{p}", f"{fn.module.rel}:{line} {s}: the search evaluates {kind} with {p} = {show(v, 3)} instead of "
                                               f"the caller's {show(w, 3)}")
            else:
                o.ob(r.kind == "proved", f"{s}: argument {p} at line {line}")
    return o


def alike(s, n):
    """call shapes in about n groups, those with the same pair of terms together"""
    R, F = repo_side(), ref_side()
    by = {}
    for lab, prs in groups_of(s):
        k = lab
        try:
            if R.has(s):
                b = F.run(s, restrict_to(s, F, prs[0].args))
                a = R.run(s, prs[0].args)
                k = tuple(x.id for v in (outcome_value(a), outcome_value(b)) for x in decide.identity.flat(v))
        except Exception:
            pass
        by.setdefault(k, []).append(lab)
    out = [[] for _ in range(n)]
    for g in sorted(by.values(), key=len, reverse=True):
        min(out, key=len).extend(g)
    return [g for g in out if g]


def units(pid, tier):
    out = []
    if pid == "F07":
        out += [Unit(s, (check_search, s, v), weight=1) for s, v in SEARCH.items()]
    for s in ref_functions(GROUPS[pid]):
        labs = [l for l, _ in groups_of(s)]
        n = 8
        if len(labs) > 12:
            chunks = alike(s, n)
        else:
            chunks = [labs]
        for i, c in enumerate(chunks):
            out.append(Unit(f"{s}#{i}", (check_function, s, c, 15 if tier == "quick" else 120), weight=len(c)))
        if not s.rpartition(".")[2].startswith("check_"):
            from . import arrays
            out.append(Unit(f"{s}#arrays", (arrays.check_values, s), weight=4))
    R, F = repo_side(), ref_side()
    return out
