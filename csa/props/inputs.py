"""C08 every supplied input reaches the result (or, for inputs that only serve a range check, that check);
C16 leaving out inputs gives an error, never a silent NaN.  Both are read off the terms of each function and call shape."""
from ..api import functions, where, missing
from ..compare import repo_side, ref_side, profiles, raise_cond, classify, errors, param_value
from ..graph import Node, mk, num, sym, TRUE, FALSE, NAN, NONE, sel, walk, syms, and_, or_, not_
from ..interp import Tup, Dct, Rec, Choice, BOT, to_node, subst
from .. import identity, nf, decide
from ..report import Unit, Outcome
from . import arrays
from .checks import collect

SETTINGS = {"tolerance", "max_iter", "max_iterations", "Cp_init", "smm10_init", "Ns_init", "Rc_Dn50_init"}
OV, RU, TR = "hydraulic.wave_overtopping.", "hydraulic.wave_runup.", "hydraulic.wave_transmission."
RA, TO, CW, CC, RE = ("structural.stability_rock_armour.", "structural.stability_toe_berm.", "structural.forces_crestwall.",
                      "structural.stability_concrete_armour.", "structural.stability_rock_rear.")
# inputs that belong to the range check only
RANGE_ONLY = {(TR + "dangremond1996", "h"), (CW + "vangentvanderwerf2019", "Rc"), (CW + "vangentvanderwerf2019", "Hm0"),
              (CC + "cubes_double_layer_vandermeer1988", "cot_alpha"), (TO + "gerding1993", "h"),
              (TO + "vangentvanderwerf2014", "cot_alpha_armour_slope")}
# inputs the formula has no use for
UNUSED = set()


def superseded(s, p, P, args):
    """may p be ignored when the inputs P are supplied?"""
    m, _, f = s.rpartition(".")
    both = {"cot_alpha_down", "cot_alpha_up"} <= P
    if p in ("M50", "rho_rock") and "Dn50" in P:
        return p == "M50" or m == RE + "vangent2007"
    if p in ("M50_core", "rho_core") and "Dn50_core" in P:
        return True
    if p == "beta" and "gamma_beta" in P:
        return True
    if p in ("B_berm", "db", "L_berm", "Ac") and "gamma_b" in P:
        return p != "Ac" or "gamma_v" in P
    if p == "Dn50" and "gamma_f" in P and m.startswith(OV):
        return True
    if p == "cot_alpha" and both:
        return True
    if p in ("B_berm", "db") and f.endswith("_rubble_mound") and m == OV + "eurotop2018" and not both:
        return True
    if p == "Hm0_swell" and m == OV + "vangent2021_caisson" and args.get("crossing_seas", FALSE) is FALSE:
        return True
    if p in ("cot_alpha_down", "cot_alpha_up") and not both and "cot_alpha" in P:
        return True
    return False


def parts(v, path=""):
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from parts(x, f"{path}[{i}]")
    elif isinstance(v, Dct):
        for k, x in v.d.items():
            yield from parts(x, f"{path}[{k}]")
    elif isinstance(v, Choice):
        yield from parts(v.a, path)
        yield from parts(v.b, path)
    else:
        try:
            yield path, to_node(v)
        except Exception:
            return


def shapes(s):
    R = repo_side()
    return profiles(R.signature(s), limit=160)


def depends(n, p):
    """'yes' with a witness, 'no' when p does not occur, else 'unknown'"""
    if p not in syms(n):
        return "no"
    q = sym(p + "_other")
    if identity.refute(n, subst(n, {sym(p).id: q}), n=400, seed=7) is not None:
        return "yes"
    return "unknown"


def check_dependence(s, part, parts_):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    m = s.rpartition(".")[0]
    for pr in shapes(s)[part::parts_]:
        r = R.run(s, {p: v for p, v in pr.args.items() if p not in SETTINGS})
        if r.value is BOT:
            continue
        if any(e.kind in ("unsupported", "badcall", "badname") for e in r.events):
            o.ob(False, f"{s} [{pr.label}]: not analysable")
            continue
        ns = [n for _, n in parts(r.value)]
        if any(n is NAN for n in ns):
            continue
        P = set(pr.args)
        used, loose = set(), set()
        for n in ns:
            (loose if has_opaque(n) else used).update(syms(n))
        used |= loose
        rc = raise_cond(r)
        chk = set()
        for e in r.events:
            if e.kind == "check":
                for d in (e.cond,) + tuple(e.data):
                    try:
                        chk.update(syms(to_node(d)))
                    except Exception:
                        pass
        lost = dropped_in_arrays(s, pr, used)
        for p, v in pr.args.items():
            if not (isinstance(v, Node) and v.op == "sym" and v.args[0] == p) or p in SETTINGS:
                continue
            if p in lost:
                o.obligations += 1
                o.violation(f"{s}:{p}:{pr.label}:array", f"{where(s)} [{pr.label}], arrays for the inputs: the supplied {p} has no "
                                                         "influence on the result, although it has in a scalar call")
                continue
            if (m, p) in UNUSED or superseded(s, p, P, pr.args) or idle(s, p, P, pr):
                continue
            want = used | chk if (m, p) in RANGE_ONLY else used
            if p not in want and p not in syms(rc):
                o.obligations += 1
                extra = " (only the range check uses it)" if p in chk else ""
                o.violation(f"{s}:{p}:{pr.label}", f"{where(s)} [{pr.label}]: the supplied input {p} has no influence on the result{extra}")
                continue
            if p in used and p not in loose:
                k = "no"
                for n in ns:
                    k = depends(n, p)
                    if k == "yes":
                        break
                o.ob(k == "yes", f"{s} [{pr.label}]: {p} occurs in the result; no pair of inputs found that tells it")
            else:
                o.ob(True)
    return o


def dropped_in_arrays(s, pr, used):
    """inputs that the scalar result contains and the result of the same call with arrays does not"""
    sig = repo_side().signature(s)
    if not pr.label.endswith("|coef" if any(classify(d) == "coef" for _, d in sig) else "|default"):
        return set()
    names = [p for p in arrays.numeric(sig, pr.args) if classify(dict(sig)[p]) != "coef"]
    if not names:
        return set()
    try:
        r = arrays.side(names).run(s, {p: v for p, v in pr.args.items() if p not in SETTINGS})
    except RecursionError:
        return set()
    if r.value is BOT or arrays.ambiguous(r, names) is not None or any(e.kind in ("unsupported", "shape") for e in r.events):
        return set()
    got = set()
    for _, n in parts(r.value):
        if any(x.op in ("opq", "opaque", "map") for x in walk(n)):
            return set()
        got |= syms(n)
    return used - got - syms(raise_cond(r))


def m_of(s):
    return s.rpartition(".")[0]


def has_opaque(n):
    return any(x.op in ("fix", "call", "ufun", "opaque") for x in walk(n))


def idle(s, p, P, pr):
    """inputs of a term that the call shape leaves out"""
    if s.endswith("_rubble_mound") and p in ("Tmm10", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "B_berm", "db"):
        # these only adjust the roughness factor, which is 1 unless given; EurOtop (2007) takes no slope as no adjustment
        return "gamma_f" not in P or p == "Tmm10" and "eurotop2007" in s and "cot_alpha" not in P
    if p == "B_berm" and s.endswith("determine_average_slope"):
        return True  # the berm width cancels: it is added to and taken off the slope length
    if p == "m" and "etemadshahidi2020" in s:
        return pr.args.get("use_depth_limited_version", FALSE) is FALSE
    if p in ("Ac", "db") and m_of(s) == OV + "vangent2025":
        # only through the berm factor, without effect for a berm of zero width, and the crest wall and wind factors
        wind = pr.args.get("include_influence_wind", FALSE) is not FALSE
        return not wind and "B_berm" not in P and (p == "db" or "gamma_v" in P)
    return p == "c_swell" and "Hm0_swell" not in P


def refusal(r):
    c = TRUE if r.value is BOT else raise_cond(r)
    for e in errors(r):
        c = or_(c, e.cond)
    return c


def accepted(s, pr, r, F, o):
    """a call that has to be refused because an input is missing is not answered"""
    sig = F.signature(s)
    if not any(p not in pr.args for p, d in sig if d is NAN or d is NONE):
        return
    known = {p for p, _ in sig}
    want = refusal(F.run(s, {k: v for k, v in pr.args.items() if k in known}))
    if want is FALSE:
        return
    # only refusals that go away when nothing is left out
    full = refusal(F.run(s, {**{p: param_value(p, d) for p, d in sig}, **{k: v for k, v in pr.args.items() if k in known}}))
    want = and_(want, not_(full))
    if want is FALSE:
        return
    v = decide.equal_nodes(and_(want, not_(refusal(r))), FALSE, budget=40, points=300, seconds=4)
    if v.kind == "refuted":
        o.obligations += 1
        o.violation(s + ":refusal", f"{where(s)} [{pr.label}]: the call lacks an input it needs and is answered all the same "
                                    f"{v.text()} (answered although refused by the documentation versus never)")
    else:
        o.ob(v.kind == "proved", f"{s} [{pr.label}]: refusal")


def check_nan(s, part, parts_):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    F = ref_side()
    for pr in shapes(s)[part::parts_]:
        r = R.run(s, pr.args)
        if r.value is BOT:
            o.ob(True)
            continue
        if F.has(s) and not any(e.kind == "unsupported" for e in r.events):
            accepted(s, pr, r, F, o)
        if any(e.kind == "unsupported" for e in r.events):
            o.ob(False, f"{s} [{pr.label}]: not analysable")
            continue
        for path, n in parts(r.value):
            if n is NAN:
                o.obligations += 1
                o.violation(s, f"{where(s)} [{pr.label}]{path}: the call is accepted and returns NaN whatever the values of the "
                               "supplied inputs, because an input was left out")
                continue
            if not any(x is NAN for x in walk(n)):
                o.ob(True)
                continue
            o.ob(False, f"{s} [{pr.label}]{path}: contains NaN on some path")
    return o


SKIP16 = {OV + "eurotop2018.q_diml_max_equation", OV + "eurotop2018.Rc_diml_max_equation"}


def minimum(pid):
    return 300


def units(pid, tier):
    R = repo_side()
    fn = check_dependence if pid == "C08" else check_nan
    out = []
    for s in functions():
        f = s.rpartition(".")[2]
        if "check_" in s or (pid == "C16" and s in SKIP16):
            continue
        n = len(shapes(s)) if R.has(s) else 1
        p = 1 + n // 8
        out += [Unit(f"{s}#{j}", (fn, s, j, p), weight=n / p) for j in range(p)]
    return out
