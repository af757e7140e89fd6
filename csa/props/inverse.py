"""Functions of one module that solve the same relation for different quantities undo each other: the term of one function is
substituted into the other, and the composition must be the identity."""
import itertools

from ..api import where, missing
from ..compare import repo_side, classify, raise_cond, param_value
from ..graph import Node, mk, num, sym, TRUE, FALSE, NONE, and_, or_, not_, sel, walk, syms
from ..interp import Tup, Choice, BOT, to_node, subst, arith
from .. import decide, identity, nf
from ..report import Unit, Outcome
from . import arrays, search

S = "structural."
RA, CA, TB, RR = S + "stability_rock_armour.", S + "stability_concrete_armour.", S + "stability_toe_berm.", S + "stability_rock_rear."
OV = "hydraulic.wave_overtopping."
P = "core_physics.calculate_"


def mul(*a):
    r = a[0]
    for x in a[1:]:
        r = arith("mul", r, x)
    return r


def div(a, b):
    return arith("div", a, b)


def pw(a, k):
    return arith("pow", a, num(k))


def lt(a, b):
    return mk("cmp", "<", a, b)


def gentle(v):
    """waves that exist: steepness below 0.1"""
    return [lt(v["Hs"], mul(num(0.15), pw(v["Tmm10"], 2)))]


def between(t, lo, hi):
    """the piecewise formula jumps somewhere between lo and hi: stay outside"""
    return or_(lt(t, num(lo)), lt(num(hi), t))


def ksi_gap(v):
    ksi2 = div(mul(num(9.81), pw(v["Tmm10"], 2)), mul(num(2), mk("pi"), v["Hs"], pw(v["cot_alpha"], 2)))
    return [between(ksi2, 1.6 ** 2, 2.0 ** 2)]


def overtopped(v, gamma="gamma"):
    """waves run up beyond the crest (otherwise there is no load on the rear side)"""
    g = v[gamma]
    r = repo_side().run("hydraulic.wave_runup.vangent2001.calculate_wave_runup_height_z1p", {
        "Hs": v["Hs"], "Tmm10": v["Tmm10"], "gamma": g, "cot_alpha": v["cot_alpha"]})
    return [lt(v["Rc"], to_node(r.value))]


class Relation:
    """quantity -> function that solves for it. given: alternatives of extra supplied optional inputs; tol: relative
    tolerance of the refutation (published coefficients are rounded); derive: parameter -> term of others"""

    def __init__(self, name, fns, given=((),), tol=1e-6, derive=None, skip=(), cond=None, drop=(), cands=(), fixed=None, more=True):
        self.name, self.fns, self.given, self.tol, self.derive = name, fns, given, tol, derive or {}
        self.skip, self.cond, self.drop, self.cands, self.fixed = skip, cond, set(drop), cands, fixed or {}
        self.more = more


def hudson(mod, m="M", f="unit_mass_M", h="significant_wave_height_Hs"):
    return Relation(mod, {m: f"{CA}{mod}.calculate_{f}", "Hs": f"{CA}{mod}.calculate_{h}"})


G981 = {"g": num(9.81)}
RELS = [
    Relation("unit mass and nominal diameter", {"M50": P + "M50_from_Dn50", "Dn50": P + "Dn50_from_M50"}),
    Relation("damage numbers", {"S": P + "S_from_Nod", "Nod": P + "Nod_from_S"}),
    hudson("accropode2_hudson1959"), hudson("accropode_hudson1959"), hudson("core_loc_hudson1959"),
    hudson("cubes_double_layer_hudson1959"), hudson("cubipod_hudson1959"), hudson("tetrapod_hudson1959"),
    hudson("cubes_single_layer_vangent2002", f="unit_mass_M_start_of_damage", h="significant_wave_height_Hs_start_of_damage"),
    hudson("cubes_single_layer_vangent2002", f="unit_mass_M_failure", h="significant_wave_height_Hs_failure"),
    hudson("xbloc", h="wave_height_Hs_from_M"), hudson("xbloc", "V", "unit_volume_V", "wave_height_Hs_from_V"),
    hudson("xblocplus", h="wave_height_Hs_from_M"), hudson("xblocplus", "V", "unit_volume_V", "wave_height_Hs_from_V"),
    Relation("cubes_double_layer_vandermeer1988", {
        "Dn": CA + "cubes_double_layer_vandermeer1988.calculate_nominal_diameter_Dn_vanDerMeer1988",
        "Hs": CA + "cubes_double_layer_vandermeer1988.calculate_wave_height_Hs_vanDerMeer1988",
        "Nod": CA + "cubes_double_layer_vandermeer1988.calculate_damage_Nod_vanDerMeer1988"}, derive={
        "Tm": lambda v: pw(div(mul(num(2), mk("pi"), v["Hs"]), mul(num(9.81), v["s0m"])), 0.5)}),
    Relation("hudson1959 no damage", {"M50": RA + "hudson1959.calculate_median_rock_mass_M50_no_damage",
                                      "Hs": RA + "hudson1959.calculate_significant_wave_height_Hs_no_damage"}),
    Relation("hudson1959", {"M50": RA + "hudson1959.calculate_median_rock_mass_M50",
                            "Hs": RA + "hudson1959.calculate_significant_wave_height_Hs"}),
]


def trio(mod, extra=None, h="significant_wave_height_Hs", **kw):
    d = {"S": f"{RA}{mod}.calculate_damage_number_S", "Dn50": f"{RA}{mod}.calculate_nominal_rock_diameter_Dn50",
         h.rpartition("_")[2]: f"{RA}{mod}.calculate_{h}"}
    return Relation(mod, d, **kw)


H2 = {"H2p": lambda v: mul(v["ratio_H2p_Hs"], v["Hs"])}
RELS += [
    trio("vandermeer1988", derive=H2, drop=("g",)), trio("vandermeer1988_modified", derive=H2, drop=("g",)),
    trio("vandermeer2021", drop=("g",)),
    trio("etemadshahidi2020", given=(("Dn50_core",), ("Dn50_core", "m")), drop=("g", "rho_water"), cond=ksi_gap),
    trio("jumelet2024", drop=("g", "rho_water"), cond=gentle),
    trio("scaravaglione2025", h="significant_wave_height_Hm0", given=(("Dn50_core",),), drop=("g",)),
    Relation("kramerburcharth2004_lowcrested", {
        "Dn50": RA + "kramerburcharth2004_lowcrested.calculate_nominal_rock_diameter_Dn50",
        "Hs": RA + "kramerburcharth2004_lowcrested.calculate_significant_wave_height_Hs",
        "Rc": RA + "kramerburcharth2004_lowcrested.calculate_crest_freeboard_Rc"},
        cond=lambda v: [lt(v["Rc"], mul(num(1.5), v["Dn50"])), lt(mul(num(-3), v["Dn50"]), v["Rc"])]),
    Relation("vangent2007 rear", {
        "S": RR + "vangent2007.calculate_damage_number_S", "Dn50": RR + "vangent2007.calculate_nominal_rock_diameter_Dn50",
        "Hs": RR + "vangent2007.calculate_maximum_significant_wave_height_Hs"}, tol=0.02, cond=overtopped),
    Relation("vangentpozueta2004 rear", {
        "S": RR + "vangentpozueta2004.calculate_damage_number_S",
        "Dn50": RR + "vangentpozueta2004.calculate_nominal_rock_diameter_Dn50",
        "Hs": RR + "vangentpozueta2004.calculate_maximum_significant_wave_height_Hs"}, given=(("rho_rock",),), drop=("cs",),
        cond=lambda v: [lt(num(0), v["Bc"])] + overtopped(v, "gamma_f")),
    Relation("etemadshahidi2021 toe", {
        "Nod": TB + "etemadshahidi2021.calculate_damage_Nod", "Dn50": TB + "etemadshahidi2021.calculate_nominal_diameter_Dn50",
        "Hs": TB + "etemadshahidi2021.calculate_significant_wave_height_Hs"},
        drop=("c1", "c2", "c3", "c4", "c5", "c6", "c7")),
    Relation("gerding1993 toe", {
        "Nod": TB + "gerding1993.calculate_damage_Nod", "Dn50": TB + "gerding1993.calculate_nominal_diameter_Dn50",
        "Hs": TB + "gerding1993.calculate_wave_height_Hs", "ht": TB + "gerding1993.calculate_depth_above_toe_ht"}),
    Relation("vandermeer1998 toe", {
        "Nod": TB + "vandermeer1998.calculate_damage_Nod", "Dn50": TB + "vandermeer1998.calculate_nominal_diameter_Dn50",
        "Hs": TB + "vandermeer1998.calculate_wave_height_Hs", "ht": TB + "vandermeer1998.calculate_depth_above_toe_ht"}),
    Relation("vangentvanderwerf2014 toe", {
        "Nod": TB + "vangentvanderwerf2014.calculate_damage_Nod",
        "Dn50": TB + "vangentvanderwerf2014.calculate_nominal_diameter_Dn50"}, tol=0.03, drop=("c1", "c2", "c3", "c4", "c5")),
]


def freeboard(v):
    """a crest above the water, and a discharge that is not vanishing"""
    return [lt(num(0), v["Rc"]), lt(num(1e-9), v["q"])]


def qr(mod, q, rc, given=((),), **kw):
    kw.setdefault("cond", freeboard)
    return Relation(f"{mod} overtopping", {"q": f"{OV}{mod}.{q}", "Rc": f"{OV}{mod}.{rc}"}, given=given, **kw)


Q, RC = "calculate_overtopping_discharge_q", "calculate_crest_freeboard_Rc"
CS = ("c1", "c2", "c3", "c4", "tolerance", "max_iter")
RELS += [
    qr("taw2002", Q, RC, (("cot_alpha", "gamma_beta", "gamma_b"), ("cot_alpha", "beta"), ("cot_alpha_down", "cot_alpha_up", "gamma_beta"))),
    qr("eurotop2018", Q, RC, (("cot_alpha", "gamma_beta", "gamma_b"), ("cot_alpha", "beta"),
                              ("cot_alpha_down", "cot_alpha_up", "gamma_beta")), drop=CS),
    qr("eurotop2018", Q + "_rubble_mound", RC + "_rubble_mound",
       (("cot_alpha", "gamma_beta"), ("cot_alpha", "beta")), drop=CS),
    qr("eurotop2007", Q + "_rubble_mound", RC + "_rubble_mound", (("gamma_beta",), ("beta",), ("cot_alpha", "gamma_beta")), drop=CS + ("g",)),
    qr("vangent2021_caisson", Q, RC, (("gamma_beta",), ("beta",), ("beta", "Hm0_swell")), drop=("c", "c_swell")),
    qr("vangent2025", Q, RC, (("cot_alpha", "gamma_f", "gamma_b", "gamma_v", "gamma_beta"), ), fixed={"include_influence_wind": FALSE}, more=False),
    qr("vangent2025", Q, RC, (("cot_alpha", "Dn50", "beta", "gamma_v"),), fixed={"include_influence_wind": FALSE, "B_berm": num(0), "db": num(0)},
       cond=lambda v: freeboard(v) + [lt(v["Hm0"], mul(num(0.1), pw(v["Tmm10"], 2))), lt(mul(num(2), v["Dn50"]), v["Hm0"]), lt(mul(num(2), v["Hm0_swell"]), v["Hm0"])]),
    # coefficients of the caller
    qr("eurotop2018", Q, RC, (("cot_alpha", "gamma_beta", "gamma_b"), ("cot_alpha", "beta")), drop=CS[4:], more=False),
    qr("eurotop2018", Q + "_rubble_mound", RC + "_rubble_mound", (("cot_alpha", "gamma_beta"),), drop=CS[4:], more=False),
    qr("eurotop2007", Q + "_rubble_mound", RC + "_rubble_mound", (("gamma_beta",), ("beta",)), drop=CS[4:] + ("g",), more=False),
    qr("vangent2021_caisson", Q, RC, (("gamma_beta",), ("beta", "Hm0_swell")), more=False),
    qr("deridder2024", Q + "_eq24", "calculate_crest_freeboard_discharge_q_eq24"),
    qr("deridder2024", Q + "_eq26", "calculate_crest_freeboard_discharge_q_eq26"),
    qr("deridder2026", Q + "_eq28", "calculate_crest_freeboard_discharge_q_eq28"),
    qr("deridder2026", Q + "_eq32", "calculate_crest_freeboard_discharge_q_eq32"),
]


def first(v):
    """the value itself: functions that also return a flag return the value first"""
    if isinstance(v, Tup):
        return first(v.items[0])
    if isinstance(v, Choice):
        return sel(v.cond, first(v.a), first(v.b))
    return to_node(v)


def call(R, f, rel, vals, given):
    """analyse f with the relation's symbols; -> value, condition under which it raises, errors"""
    args = {}
    for p, d in R.signature(f):
        k = classify(d)
        if p in rel.drop:
            continue
        if p in vals:
            v = vals[p]
        elif p in rel.fixed:
            v = rel.fixed[p]
        elif p in rel.derive:
            v = rel.derive[p](Vals(vals))
        elif p == "M50" and "Dn50" in rel.fns and "M50" not in rel.fns:
            continue
        elif k == "opt" and p not in given and p not in rel.fns:
            continue
        else:
            v = param_value(p, d)
        args[p] = v
    rho = args.get("rho_armour", args.get("rho_rock"))
    if "M50" in given and "Dn50" in args and rho is not None and "M50" in dict(R.signature(f)):
        args["M50"] = mul(rho, pw(args.pop("Dn50"), 3))
    r = R.run(f, args)
    bad = [e for e in r.events if e.kind in ("unbound", "badcall", "badname", "zerodiv", "unsupported")]
    v = None if r.value is BOT else first(r.value)
    return v, raise_cond(r), bad


class Vals(dict):
    def __missing__(self, k):
        return sym(k)


def alternatives(R, rel, fa, fb):
    """every further combination of optional inputs both functions know, and the mass instead of the diameter"""
    def opt(f):
        return {p for p, d in R.signature(f) if classify(d) == "opt" and p not in rel.drop and p not in rel.fixed}
    have = [set(g) for g in rel.given]
    out = []
    if rel.more:
        common = sorted((opt(fa) & opt(fb)) - set(rel.fns) - {"M50"})
        out += [g for k in range(len(common) + 1) for g in itertools.combinations(common, k) if set(g) not in have]
    if "Dn50" in rel.fns and any("M50" in dict(R.signature(f)) for f in (fa, fb)) and "M50" not in rel.fns:
        out += [tuple(g) + ("M50",) for g in rel.given]
    return out


def check_pair(i, a, b):
    """solve for a, then use a to solve for b: b comes back"""
    rel = RELS[i]
    o = Outcome()
    fa, fb = rel.fns[a], rel.fns[b]
    for f in (fa, fb):
        o.functions.add(f)
        if missing(f, o):
            return o
    R = repo_side()
    for given in rel.given:
        compose(o, R, rel, fa, fb, a, b, given)
        if o.findings:
            return o
    for given in alternatives(R, rel, fa, fb):
        compose(o, R, rel, fa, fb, a, b, given, extra=True)
        if o.findings:
            return o
    return o


def compose(o, R, rel, fa, fb, a, b, given, extra=False):
    x = sym(b)
    A, ra, bad1 = call(R, fa, rel, {b: x}, given)
    if A is None:
        if not extra:
            o.ob(False, f"{fa}: always refuses")
        return
    B, rb, bad2 = call(R, fb, rel, {a: A}, given)
    tag = f"{rel.name}: {b} from {a} from {b}" + (f" with {'+'.join(given)}" if given else "")
    if B is None or bad1 or bad2:
        if not extra:
            o.ob(False, f"{tag}: not analysable")
        return
    if extra and TRUE in (ra, rb):
        return
    guard = or_(ra, rb)
    if nf.is_pos_name(a):       # the solution exists
        guard = or_(guard, not_(lt(num(0), A)))
    v = Vals({b: x, a: A})
    for x0 in rel.cond(v) if rel.cond else ():
        guard = or_(guard, not_(x0))
    if extra:                   # influence factors are reductions
        for p in sorted(syms(B)):
            if p in ("gamma_f", "gamma_b", "gamma_beta", "gamma_v", "gamma_star"):
                guard = or_(guard, not_(lt(sym(p), num(1.001))))
    verdict(o, tag, rel, fa, fb, a, b, A, B, x, guard)


def verdict(o, tag, rel, fa, fb, a, b, A, B, x, guard):
    dens = [n for n in syms(B) if n.startswith("rho_") and n != "rho_water" and n != "rho_core"]
    for n in dens:      # change of variables: density by relative buoyant density
        m = {sym(n).id: mul(sym("rho_water") if "rho_water" in syms(B) else num(1025), arith("add", num(1), sym("Delta")))}
        B, guard = subst(B, m), subst(guard, m)
    lhs, rhs = (B, x) if guard is FALSE else (sel(guard, x, B), x)
    fixes = [n for n in walk(lhs) if n.op == "fix"]
    tol = max(rel.tol, 5e-3) if fixes else rel.tol
    w = identity.refute(lhs, rhs, n=120, rtol=tol)
    if w is not None:
        o.obligations += 1
        o.violation(f"{fb}:{a}", f"{where(fb)} is not the inverse of {where(fa)} ({tag}): {w.text()}")
        return
    if tol > 1e-6 and not fixes:
        o.ob(True)
        o.count("compositions compared within the rounding of coefficients")
        return
    if fixes:
        o.ob(fixed_point(lhs, rhs, fixes, rel, A), f"{tag}: iteration, fixed point not identified")
        return
    v = decide.equal_nodes(lhs, rhs, seconds=20, span=1)
    if v.kind == "refuted":
        o.obligations += 1
        o.violation(f"{fb}:{a}", f"{where(fb)} is not the inverse of {where(fa)} ({tag}): {v.text()}")
        return
    o.ob(v.kind == "proved", f"{tag}: {v.text() if v.detail else 'not decided'}"[:300])


def fixed_point(lhs, rhs, fixes, rel, A):
    """some term t of the forward calculation satisfies the inner equation t = step(t), and with it the result is the input.
    (Which fixed point the iteration approaches is not decided here.)"""
    cands = [rhs]
    for n in [x for x in walk(lhs) if x.op in ("fn", "sym", "num", "sel", "add", "mul", "div", "pow", "sub", "neg")] :
        if n not in cands and not any(y.op in ("bv", "fix") for y in walk(n)) and n.op != "num":
            cands.append(n)
    inner = [f for f in fixes if not any(g is not f and g.op == "fix" for g in walk(f.args[-1]))]
    for f in inner:
        lv = mk("bv", f.args[0])
        body = f.args[1]
        for t in cands[:400]:
            st = subst(body, {lv.id: t})
            if st.op == "fix" or identity.refute(st, t, n=12) is not None:
                continue
            new = subst(lhs, {f.id: t})
            if identity.refute(new, rhs, n=12) is not None:
                continue
            rest = [x for x in walk(new) if x.op == "fix"]
            if rest:
                if len(rest) < len(fixes) and fixed_point(new, rhs, rest, rel, A):
                    return True
                continue
            if decide.equal_nodes(st, t, seconds=10).kind == "proved" and decide.equal_nodes(new, rhs, seconds=10).kind == "proved":
                return True
    return False


def check_elements(s):
    """with arrays, the inverse can hold for each element only if each element's result is that of its scalar call"""
    return arrays.check_values(s)


def minimum(pid):
    return 30


def units(pid, tier):
    out = []
    for i, rel in enumerate(RELS):
        for a in rel.fns:
            for b in rel.fns:
                if a != b and (a, b) not in rel.skip:
                    out.append(Unit(f"{rel.name}#{i}:{a}->{b}", (check_pair, i, a, b)))
    for s in sorted({f for rel in RELS for f in rel.fns.values()}):
        out.append(Unit(f"{s}#arrays", (check_elements, s)))
    out += [Unit(f"{s}#search", (search.check_search, s)) for s in (search.HS, search.HACC)]
    return out
