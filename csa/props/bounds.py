"""C11 results stay within their physical bounds; C12 results follow their physical trends.
Both are decided on the terms by interval and monotonicity analysis; a claim the analysis cannot prove is refuted only by inputs
at which the term breaks it."""
import itertools
import math
import random
import time

from ..api import functions, where, missing
from ..compare import repo_side, profiles, raise_cond, Profile
from ..graph import Node, mk, num, sym, TRUE, FALSE, NAN, sel, walk, syms
from ..interp import BOT, to_node, subst, arith
from .. import decide, identity, nf
from ..absdom import Ctx
from ..report import Unit, Outcome
from . import arrays
from .inputs import parts, SETTINGS

INF = math.inf
OV, RU, TR = "hydraulic.wave_overtopping.", "hydraulic.wave_runup.", "hydraulic.wave_transmission."
RA, TO, CW, CC, RE = ("structural.stability_rock_armour.", "structural.stability_toe_berm.", "structural.forces_crestwall.vangentvanderwerf2019.",
                      "structural.stability_concrete_armour.", "structural.stability_rock_rear.")
GB = "calculate_influence_oblique_waves_gamma_beta"
# function -> (lower, upper) bound of the (first) result
BOUND = {
    TR + "dangremond1996.calculate_wave_transmission_Kt_permeable": (0.075, 0.8),
    TR + "dangremond1996.calculate_wave_transmission_Kt_impermeable": (0.075, 0.8),
    TR + "briganti2003.calculate_wave_transmission_Kt": (0.05, 0.93),
    TR + "goda1967_caisson.calculate_wave_transmission_Kt": (0, 1),
    TR + "vangent2023.calculate_wave_transmission_Kt": (0, 1),
    RU + "taw2002.calculate_influence_berm_gamma_b": (0.6, 1),
    RU + "taw2002." + GB: (0.824, 1), OV + "taw2002." + GB: (0.736, 1),
    RU + "eurotop2018." + GB: (0.496, 1), OV + "eurotop2018." + GB: (0.496, 1),
    OV + "taw2002.calculate_influence_crest_wall_gamma_v": (0.65, 1),
    OV + "deridder2026.calculate_gamma_beta": (0.35, 1), OV + "vangent2025." + GB: (0.35, 1), CW + GB: (0.5, 1),
    CW + "calculate_FH2p_perpendicular": (0, INF), CW + "calculate_FH2p_perpendicular_from_z2p": (0, INF),
    CW + "calculate_FV2p_perpendicular": (0, INF), CW + "calculate_FV2p_perpendicular_from_z2p": (0, INF),
    CC + "accropode_hudson1959.calculate_KD_breaking_trunk_from_seabed_slope": (7.5, 15),
    CC + "accropode2_hudson1959.calculate_KD_breaking_trunk_from_seabed_slope": (8, 16),
    CC + "core_loc_hudson1959.calculate_KD_breaking_trunk_from_seabed_slope": (8, 16),
    CC + "accropode_hudson1959.calculate_KD_nonbreaking_trunk_from_seabed_slope": (15, 15),
    CC + "accropode2_hudson1959.calculate_KD_nonbreaking_trunk_from_seabed_slope": (16, 16),
    CC + "core_loc_hudson1959.calculate_KD_nonbreaking_trunk_from_seabed_slope": (16, 16),
    OV + "eurotop2018.calculate_dimensionless_overtopping_discharge_q": (0, 0.1035),
    OV + "vangent2021_caisson." + GB: (0, 1),
    RU + "taw2002.iteration_procedure_gamma_b": (0.6, 1), RU + "eurotop2018.iteration_procedure_gamma_b": (0.6, 1),
}
for _m in ("xbloc", "xblocplus"):
    for _k in ("cotalpha_seabed", "percslope_seabed", "relative_freeboard", "rel_depth", "structure_slope"):
        BOUND[f"{CC}{_m}.calculate_correctionfactor_unit_mass_M_by_{_k}"] = (1, 2)
NONNEG = ("overtopping_discharge", "unit_mass_M", "unit_volume_V", "rock_mass", "diameter", "wave_height_H", "damage_", "runup_height",
          "steepness", "Iribarren", "wavelength", "setup_delta", "structure_induced_setup", "M50_from", "Dn50_from")
# formulas that give negative numbers outside their range
SIGNED = {OV + "vangent2025", RE + "vangent2007", RE + "vangentpozueta2004", TO + "gerding1993", RA + "scaravaglione2025", RU + "taw2002",
          RU + "eurotop2018"}
SKIP_KEYS = ("coef",)

# trends: quantity in the function's name -> parameter -> direction
TREND = {
    "overtopping_discharge": {"Rc": -1, "Hm0_LF": 1},
    "crest_freeboard": {"q": -1},
    "runup_height": {"Hm0": 1, "Tmm10": 1, "cot_alpha": -1, "gamma_b": 1, "Hs": 1, "gamma": 1, "H": 1, "cot_alpha_down": -1, "cot_alpha_up": -1},
    "transmission_Kt": {"Rc": -1, "B": -1, "Tpi": 1, "Tmm10": 1},
    "unit_mass": {"Hs": 1, "KD": -1, "rho_armour": -1, "rho_water": 1},
    "unit_volume": {"Hs": 1, "KD": -1, "rho_armour": -1, "rho_water": 1},
    "rock_mass": {"Hs": 1, "KD": -1, "rho_armour": -1, "rho_rock": -1, "rho_water": 1, "cot_alpha": -1, "damage_percentage": -1},
    "wave_height_H": {"Dn50": 1, "Dn": 1, "M": 1, "V": 1, "M50": 1, "rho_armour": 1, "rho_rock": 1, "KD": 1, "rho_water": -1,
                      "N_waves": -1, "Nod": 1, "S": 1, "ht": 1, "damage_percentage": 1},
    "diameter": {"Hs": 1, "Hm0": 1, "H2p": 1, "N_waves": 1, "Nod": -1, "rho_armour": -1, "rho_rock": -1, "S": -1, "rho_water": 1},
    "damage_": {"Hs": 1, "Hm0": 1, "H2p": 1, "N_waves": 1, "Dn50": -1, "Dn": -1, "M50": -1, "rho_armour": -1, "rho_rock": -1, "ht": -1},
    "FH2p_perpendicular": {"Hm0": 1, "Tmm10": 1, "Ac": -1, "Hwall": 1, "z2p": 1},
    "FH2p_oblique": {"Hm0": 1, "Tmm10": 1, "Hwall": 1}, "FV2p": {"Hm0": 1, "Tmm10": 1, "Bwall": 1, "z2p": 1},
    "FH01p": {"FH2p": 1}, "FV01p": {"FV2p": 1},
    "depth_above": {"Dn50": -1, "Hs": 1, "rho_rock": -1},
    "safety": {}, "Ns": {},
}
# where the formula itself does not follow the trend everywhere
EXCEPT = {
    (OV + "vangent2025", "Rc"), (RE + "vangent2007", None), (RE + "vangentpozueta2004", "Hs"), (RE + "vangentpozueta2004", "N_waves"),
    (RE + "vangentpozueta2004", "S"), (RE + "vangentpozueta2004", "rho_rock"), (RA + "kramerburcharth2004_lowcrested", "Dn50"),
    (RA + "kramerburcharth2004_lowcrested", "M50"), (TR + "goda1967_caisson", "Rc"), (RA + "jumelet2024", "Hs"),
    (RU + "taw2002", "cot_alpha_down"), (RU + "taw2002", "cot_alpha_up"), (RU + "eurotop2018", "cot_alpha_down"),
    (RU + "eurotop2018", "cot_alpha_up"), (TR + "briganti2003", "B"), (RA + "etemadshahidi2020", None), (RA + "vandermeer1988", "Hs"), (RA + "vandermeer1988_modified", "Hs"),
}


def densities(n):
    """write the densities of rock and concrete as that of water plus an excess"""
    m = {}
    w = sym("rho_water") if "rho_water" in syms(n) else num(1025)
    for p in syms(n):
        if p in ("rho_rock", "rho_armour"):
            m[sym(p).id] = arith("add", w, sym("excess_" + p))
    return subst(n, m) if m else n


def ranges(name):
    if name.startswith("excess_"):
        return (0.0, INF)
    if identity.anysign(name):
        if name in ("beta", "theta"):
            return (-90.0, 90.0)
        return (-INF, INF)
    return (0.0, INF)


def point_ok(e):
    return True


def prepared(s, part, parts_, limit):
    """(profile, result term) pairs of a function, coefficients at their defaults"""
    R = repo_side()
    prs = [q for q in profiles(R.signature(s), limit=limit) if not q.label.endswith("|coef")]
    seen = set()
    for pr in prs[part::parts_]:
        r = R.run(s, {p: v for p, v in pr.args.items() if p not in SETTINGS})
        if r.value is BOT or any(e.kind in ("unsupported", "badcall", "badname") for e in r.events):
            continue
        rc = raise_cond(r)
        for path, n in parts(r.value):
            if n is NAN or n.id in seen:
                break
            seen.add(n.id)
            yield pr, n, rc
            break
    if part == 0:
        yield from array_terms(s, seen)


def array_terms(s, seen):
    """results for one element of array calls, where they are not simply the scalar result"""
    R = repo_side()
    sig = R.signature(s)
    for pr in arrays.shapes(s):
        if pr.label.endswith("|coef"):
            continue
        names = arrays.numeric(sig, pr.args)
        sc = R.run(s, pr.args)
        if not names or sc.value is BOT:
            continue
        try:
            r = arrays.side(names).run(s, pr.args)
            if r.value is BOT or arrays.ambiguous(r, names) is not None or any(
                    e.kind in ("unsupported", "badcall", "badname", "shape") for e in r.events):
                continue
            a, b = arrays.leaves(r.value)[0], arrays.leaves(sc.value)[0]
            if a is b or a is NAN or not isinstance(a, Node) or not isinstance(b, Node):
                continue
            x, y, rc = (arrays.lanes(n, set(names), 0) for n in (a, b, raise_cond(r)))
            if x is y or x.id in seen or any(z.op in ("loopv", "opq") for z in walk(x)):
                continue
            if decide.equal_nodes(x, y, budget=60, points=100, seconds=4).kind == "refuted":
                seen.add(x.id)
                yield Profile(pr.label + ", arrays, first element (others name__b)", pr.args), x, rc
        except (arrays.Coupled, RecursionError, IndexError):
            continue


def evaluate(n, e):
    ev = identity.Eval(e)
    try:
        v = ev(n)
    except Exception:
        return None
    if ev.used or not isinstance(v, float) or not math.isfinite(v):
        return None
    return v


def text(e, names):
    return ", ".join(f"{k[1]}={e[k]:.6g}" if isinstance(e[k], float) else f"{k[1]}={e[k]}" for k in sorted(e) if k[1] in names)


def in_domain(e, s=""):
    for k, v in e.items():
        if k[1] in ("beta", "theta") and isinstance(v, float) and abs(v) > 90:
            return False
    g = lambda n, d: e.get(("sym", n), d)
    try:
        if s.startswith(OV + "vangent2021_caisson.calculate_influence"):
            return 0 <= g("c_beta", 0) <= g("gamma_p", 1)
        if "FV2p" in s:
            return g("Fb", 0) < g("Ac", 1)
    except TypeError:
        return False
    return True


def trend_domain(e, s, p, x):
    """inputs for which the trend is claimed: waves that exist, influence factors up to 1, forces on a wall that is reached"""
    g = lambda n, d: e.get(("sym", n), d)
    if "oblique" in s:
        return x > 0
    if p == "Hm0" and s.startswith(RU):
        return (g("Hm0", 1) < 0.1 * 1.56 * g("Tmm10", 1) ** 2 and g("cot_alpha", 1) <= 8
                and all(g(n, 1) <= 1 for n in ("gamma_f", "gamma_b", "gamma_beta", "gamma")))
    return True


def check_bound(s, part, parts_):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    lo, hi = BOUND.get(s, (0, INF))
    for pr, n, rc in prepared(s, part, parts_, 60):
        d = densities(n)
        v = Ctx(ranges)(d)
        tol = 1e-9
        if v[0] >= lo - tol and v[1] <= hi + tol:
            o.ob(True)
            o.count("proved by interval analysis")
            continue
        sp = identity.Sampler([n, rc], seed=5)
        bad = None
        t = sel(rc, NAN, n)
        ends = itertools.chain((sp.point() for _ in range(400)), identity.borders([n, rc], time.time() + 3))
        for e in ends:
            if not in_domain(e, s):
                continue
            x = evaluate(t, e)
            if x is not None and (x < lo - 1e-9 or x > hi + 1e-9):
                bad = (e, x)
                break
        if bad:
            o.obligations += 1
            o.violation(s, f"{where(s)} [{pr.label}]: result {bad[1]:.6g} outside [{lo}, {hi}] at {text(bad[0], syms(n))}"[:900])
            return o
        o.ob(False, f"{s} [{pr.label}]: [{lo}, {hi}] not proved, interval [{v[0]:.3g}, {v[1]:.3g}]")
    return o


def trends(s):
    m, _, f = s.rpartition(".")
    for k, t in TREND.items():
        if k in f:
            return {p: d for p, d in t.items() if (m, p) not in EXCEPT and (m, None) not in EXCEPT
                    and not (p == "Hm0" and "dimensionless" in f)}
    return {}


def check_trend(s, part, parts_):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    T = trends(s)
    for pr, n, rc in prepared(s, part, parts_, 24):
        d = densities(n)
        names = syms(n)
        ctx = Ctx(ranges)
        todo = []
        for p, dr in T.items():
            if p not in names or p not in pr.args or (p == "Hm0" and s.startswith(RU) and names & {"cot_alpha_down", "cot_alpha_up"}):
                continue
            q = "excess_" + p if p in ("rho_rock", "rho_armour") else p
            if p == "rho_water" and d is not n:
                # excess = rock - water falls as water rises: both parts have to agree
                qs = [("rho_water", dr)] + [(x, -dr) for x in syms(d) if x.startswith("excess_")]
            else:
                qs = [(q, dr)]
            if all(ctx.mono(d, x) in (0, y) for x, y in qs):
                o.ob(True)
                o.count("proved by monotonicity analysis")
            else:
                todo.append((p, dr))
        if not todo:
            continue
        t = sel(rc, NAN, n)
        sp = identity.Sampler([n, rc], seed=5)
        rnd = random.Random(11)
        for e in itertools.chain((sp.point() for _ in range(120)), identity.borders([n, rc], time.time() + 3, span=1)):
            if not in_domain(e, s):
                continue
            x = evaluate(t, e)
            if x is None:
                continue
            for p, dr in list(todo):
                k = ("sym", p)
                if k not in e or not e[k] > 0 or not trend_domain(e, s, p, x):
                    continue
                f = math.exp(rnd.choice((0.01, 0.1, 0.5)))
                e2 = {**e, k: e[k] * f}
                w = (e2.get(("sym", "rho_water"), 0), [e2[q] for q in (("sym", "rho_rock"), ("sym", "rho_armour")) if q in e2])
                if any(r <= w[0] for r in w[1]):
                    continue
                y = evaluate(t, e2)
                if y is None:
                    continue
                if (y - x) * dr < -1e-6 * max(abs(x), abs(y)) - 1e-12:
                    o.obligations += 1
                    word = "rises" if dr < 0 else "falls"
                    o.violation(f"{s}:{p}", f"{where(s)} [{pr.label}]: the result {word} from {x:.6g} to {y:.6g} when {p} grows from "
                                            f"{e[k]:.6g} to {e2[k]:.6g}, at {text(e, names)}"[:900])
                    return o
        for p, dr in todo:
            o.ob(False, f"{s} [{pr.label}]: trend in {p} not proved")
    return o


def minimum(pid):
    return 100


def units(pid, tier):
    R = repo_side()
    out = []
    for s in functions():
        m, _, f = s.rpartition(".")
        if "check_" in s:
            continue
        if pid == "C11":
            if not (s in BOUND or (any(k in f for k in NONNEG) and m not in SIGNED and f.startswith("calculate")
                                   and "influence" not in f and "correction" not in f)):
                continue
            fn, lim = check_bound, 60
        else:
            if not f.startswith("calculate") or not trends(s) or "influence" in f or "correctionfactor" in f:
                continue
            fn, lim = check_trend, 24
        n = len(profiles(R.signature(s), limit=lim)) if R.has(s) else 1
        p = 1 + n // 6
        out += [Unit(f"{s}#{j}", (fn, s, j, p), weight=n / p) for j in range(p)]
    for s in BOUND:
        if pid == "C11" and s not in functions() and not R.has(s):
            pass
    return out
