"""No call in a documented shape dies of an internal error: unbound local, undefined name or attribute, wrong arguments
between the toolbox's own functions, unpacking of the wrong number of values, missing key or index, constant division by
zero; deliberate refusals are ValueErrors."""
from ..api import PUBLIC, where, missing
from ..compare import repo_side, profiles, Side, errors
from ..graph import Node, TRUE, FALSE, and_, not_, show
from .. import identity
from ..report import Unit, Outcome
from . import arrays

KINDS = {"unbound": "may be used before it has a value", "badcall": "call does not fit the callee's signature",
         "badname": "is not defined", "zerodiv": "division by zero"}
STRINGS = {"structure_type": None, "rock_type": None, "output_dir": None, "file_name": None}


def reachable(c):
    if c is TRUE:
        return True, ""
    if c is FALSE:
        return False, ""
    w = identity.refute(c, FALSE, n=600)
    if w is None:
        return False, ""
    return True, " for " + w.text().rpartition(": ")[0][3:]


def check_function(s, part, parts):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    sig = R.signature(s)
    strings = {p for p, d in sig if p in STRINGS and d is None}
    seen = set()
    for pr in profiles(sig, strings=strings, limit=400)[part::parts]:
        try:
            r = R.run(s, pr.args)
        except RecursionError:
            o.ob(False, f"{s} [{pr.label}]: recursion limit")
            continue
        bad = False
        for e in r.events:
            if e.kind in KINDS:
                ok, w = reachable(e.cond)
                if ok:
                    what = e.data[-1] if e.kind == "badcall" else e.data if isinstance(e.data, str) else ""
                    o.obligations += 1
                    o.violation(f"{s}:{e.kind}:{e.module.rpartition('/')[2]}:{e.func}",
                                f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}{w}: {what} {KINDS[e.kind]} at {e.at()}")
                    return o
                bad = True
            elif e.kind == "raise" and e.data[0] not in ("ValueError",):
                key = (e.data[0], e.line, e.module)
                if key in seen:
                    continue
                ok, w = reachable(e.cond)
                if ok:
                    seen.add(key)
                    o.obligations += 1
                    o.violation(f"{s}:raise:{e.data[0]}:{e.module.rpartition('/')[2]}:{e.func}",
                                f"{where(s)} called with {{{', '.join(sorted(pr.args))}}}{w}: fails with {e.data[0]} at {e.at()}"
                                f" instead of a result or a ValueError")
                    return o
        un = [e for e in r.events if e.kind == "unsupported"]
        o.ob(not bad and not un, f"{s} [{pr.label}]: not decided")
        o.count("call shapes")
    return o


def check_arrays(s):
    """calls with arrays do not die of an internal error either (refusing arrays is left to C18)"""
    o = Outcome()
    o.functions.add(s)
    R = repo_side()
    if not R.has(s):
        return o
    sig = R.signature(s)
    for pr in arrays.shapes(s):
        names = [p for p in arrays.numeric(sig, pr.args) if arrays.classify(dict(sig)[p]) != "coef"]
        if not names:
            continue
        try:
            r = arrays.side(names).run(s, pr.args)
        except RecursionError:
            continue
        if arrays.ambiguous(r, names) is not None:
            continue
        for e in r.events:
            if e.kind in KINDS and arrays.satisfiable(e.cond, set(names)):
                what = e.data[-1] if e.kind == "badcall" else e.data if isinstance(e.data, str) else ""
                o.obligations += 1
                o.violation(f"{s}:{e.kind}:{e.module.rpartition('/')[2]}:{e.func}:array",
                            f"{where(s)} called with arrays for {', '.join(names)}: {what} {KINDS[e.kind]} at {e.at()}")
                return o
        o.ob(True)
    return o


def minimum(pid):
    return 2000


def units(pid, tier):
    R = repo_side()
    out = []
    for s in PUBLIC:
        n = len(profiles(R.signature(s), limit=400)) if R.has(s) else 1
        k = 1 + n // 60
        out += [Unit(f"{s}#{i}", (check_function, s, i, k), weight=n / k) for i in range(k)]
        out.append(Unit(f"{s}#arrays", (check_arrays, s), weight=4))
    return out
