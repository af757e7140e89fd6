"""Relations between public functions: dimensional and dimensionless variants agree (C02); equivalent ways to supply the same
information give the same result (C20). Both sides are terms of the analysed program; no reference is involved."""
from ..api import where, missing
from ..compare import repo_side, classify, raise_cond, param_value, profiles
from ..graph import Node, mk, num, sym, TRUE, FALSE, NONE, and_, or_, not_, sel, walk, syms
from ..interp import Tup, Dct, Rec, Choice, BOT, to_node, subst, arith
from .. import decide, identity, nf
from ..report import Unit, Outcome
from . import arrays
from .inverse import mul, div, pw, lt, first

RU, OV, TR = "hydraulic.wave_runup.", "hydraulic.wave_overtopping.", "hydraulic.wave_transmission."
S = "structural."
RA, CA, TB, RR = S + "stability_rock_armour.", S + "stability_concrete_armour.", S + "stability_toe_berm.", S + "stability_rock_rear."
FC, FW = S + "forces_caisson.goda1985.", S + "forces_crestwall.vangentvanderwerf2019."
BAD = ("unbound", "badcall", "badname", "zerodiv", "unsupported")


class Refuses(Exception):
    pass


def run(f, args):
    """value (containers kept), condition under which the call raises"""
    R = repo_side()
    if not R.has(f):
        raise Refuses(f)
    if ARRAY:
        r = arrays.side(ARRAY[0]).run(f, args)
        if arrays.ambiguous(r, ARRAY[0]) is not None:
            raise Scalar(f)
        if any(e.kind == "shape" for e in r.events):
            raise Refuses(f)
    else:
        r = R.run(f, args)
    if any(e.kind in BAD for e in r.events):
        raise Refuses(f)
    return r.value, raise_cond(r)


ARRAY = []      # names of the inputs that are arrays, in the array variant of a comparison


class Scalar(Exception):
    """the function does not take these arrays"""


def compare_arrays(o, key, tag, f, g, va, ca, vb, cb, names, extra=FALSE):
    """two array calls give the same elements"""
    o.functions |= {f, g}
    if va is BOT or vb is BOT:
        return
    la, lb = arrays.leaves(va), arrays.leaves(vb)
    if len(la) != len(lb):
        return
    skip = or_(or_(ca, cb), extra)
    for a, b in zip(la, lb):
        if not isinstance(a, Node) or not isinstance(b, Node):
            continue
        if a is b:
            o.ob(True)
            continue
        for k in (0, 1):
            try:
                x, y, c = (arrays.lanes(n, set(names), k) for n in (a, b, skip))
                x, y = sel(c, num(0), x), sel(c, num(0), y)
                v = decide.equal_nodes(x, y, budget=60, points=300, seconds=4)
            except (arrays.Coupled, RecursionError):
                o.ob(False, f"{tag}, arrays: not decided")
                break
            if v.kind == "refuted" and any(z.op in ("loopv", "opq") for q in (x, y) for z in walk(q)):
                v = decide.Verdict("undecided")
            if v.kind == "refuted":
                o.obligations += 1
                o.violation(key + ":array", f"{where(f)}: {tag}, with arrays for {', '.join(sorted(names))}: element {k} {v.text()}"[:900])
                return
            o.ob(v.kind == "proved", f"{tag}, arrays: not decided")


def scaled(v, k):
    """the first value of a result times k"""
    if isinstance(v, Tup):
        return Tup([scaled(v.items[0], k)] + list(v.items[1:]))
    if isinstance(v, Choice):
        return Choice(v.cond, scaled(v.a, k), scaled(v.b, k))
    return arith("mul", to_node(v), k)


def guarded(v, c, to):
    if c is FALSE:
        return v
    if isinstance(v, Tup):
        return Tup([guarded(x, c, to) for x in v.items])
    if isinstance(v, Choice):
        return Choice(v.cond, guarded(v.a, c, to), guarded(v.b, c, to))
    return sel(c, to, to_node(v))


def compare(o, key, tag, f, g, va, ca, vb, cb, extra=FALSE, refusal=True, seconds=15):
    """two results are the same wherever neither raises; both raise under the same condition (refusal)"""
    o.functions |= {f, g}
    if va is BOT and vb is BOT:
        o.ob(True)
        return
    if va is BOT or vb is BOT:
        if not refusal:
            return
        c = cb if va is BOT else ca
        w = identity.refute(c, TRUE, n=60)
        o.obligations += 1
        if w is not None:
            o.violation(key, f"{tag}: {where(f if va is BOT else g)} refuses a call that {where(g if va is BOT else f)} accepts")
        else:
            o.proved += 1
        return
    skip = or_(or_(ca, cb), extra)
    zero = num(0)
    v = decide.equal_values(guarded(va, skip, zero), guarded(vb, skip, zero), seconds=seconds)
    if v.kind == "refuted":
        o.obligations += 1
        o.violation(key, f"{where(f)}: {tag}: {v.text()}"[:900])
        return
    o.ob(v.kind == "proved", f"{tag}: {v.text() if v.detail else 'not decided'}"[:300])
    if refusal:
        w = identity.refute(ca, cb, n=60) if ca is not cb else None
        if w is not None and extra is FALSE:
            o.violation(key + ":raise", f"{where(f)}: {tag}: one of the two refuses {w.text().rpartition(': ')[0]}")


# ------------------------------------------------------------------------------------------------ C02
def flux(h):
    return lambda a: pw(mul(a.get("g", num(9.81)), pw(a[h], 3)), 0.5)


def length(h):
    return lambda a: a[h]


Q, DQ = "calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q"
C, DC = "calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard"
DIML = [(OV + m + "." + a, OV + m + "." + b, k("Hm0")) for m in ("taw2002", "eurotop2018", "vangent2021_caisson", "vangent2025")
        for a, b, k in ((Q, DQ, flux), (C, DC, length))]
DIML += [(OV + m + "." + a + "_rubble_mound", OV + m + "." + b + "_rubble_mound", k("Hm0")) for m in ("eurotop2007", "eurotop2018")
         for a, b, k in ((Q, DQ, flux), (C, DC, length))]
DIML += [(f"{OV}deridder{y}.calculate_overtopping_discharge_q_eq{e}", f"{OV}deridder{y}.calculate_dimensionless_overtopping_discharge_eq{e}",
          flux(h)) for y, e, h in ((2024, 24, "Hm0"), (2024, 26, "Hm0"), (2026, 28, "Hm0"), (2026, 32, "Hm0_HF"))]
DIML += [(f"{OV}deridder2024.calculate_crest_freeboard_discharge_q_eq24",
          f"{OV}deridder2024.calculate_dimensionless_crest_freeboard_discharge_q_eq24", length("Hm0"))]
DIML += [(f"{RU}{m}.calculate_wave_runup_height_z2p", f"{RU}{m}.calculate_dimensionless_wave_runup_height_z2p", length("Hm0"))
         for m in ("taw2002", "eurotop2018")]
DIML += [(f"{TR}vangent2024_setup.calculate_structure_induced_setup_delta_{k}",
          f"{TR}vangent2024_setup.calculate_dimensionless_structure_induced_setup_{k}", length("Hm0")) for k in ("impermeable", "permeable")]


def check_diml(i, part, parts):
    f, d, scale = DIML[i]
    o = Outcome()
    o.functions |= {f, d}
    if missing(f, o) or missing(d, o):
        return o
    R = repo_side()
    sig, dsig = R.signature(f), {p for p, _ in R.signature(d)}
    for pr in profiles(sig, limit=160)[part::parts]:
        a = dict(pr.args)
        tag = f"{f.rpartition('.')[2]} [{pr.label}] is {d.rpartition('.')[2]} times its scale"
        try:
            va, ca = run(f, a)
            vb, cb = run(d, {k: v for k, v in a.items() if k in dsig})
        except Refuses:
            o.ob(False, f"{tag}: not analysable")
            continue
        if vb is not BOT:
            vb = scaled(vb, scale(a))
        compare(o, f"{f}", tag, f, d, va, ca, vb, cb)
        if o.findings:
            return o
    return o


def check_diml_arrays(i):
    f, d, scale = DIML[i]
    o = Outcome()
    R = repo_side()
    if not R.has(f) or not R.has(d):
        return o
    sig, dsig = R.signature(f), {p for p, _ in R.signature(d)}
    for pr in arrays.shapes(f):
        names = [p for p in arrays.numeric(sig, pr.args) if classify(dict(sig)[p]) != "coef"]
        tag = f"{f.rpartition('.')[2]} [{pr.label}] is {d.rpartition('.')[2]} times its scale"
        ARRAY[:] = [names]
        try:
            va, ca = run(f, pr.args)
            vb, cb = run(d, {k: v for k, v in pr.args.items() if k in dsig})
        except (Refuses, Scalar, RecursionError):
            continue
        finally:
            ARRAY.clear()
        if vb is not BOT:
            vb = scaled(vb, scale(pr.args))
        compare_arrays(o, f, tag, f, d, va, ca, vb, cb, names)
        o.count("array comparisons")
        if o.findings:
            return o
    return o


RUBBLE = tuple(x + "_rubble_mound" for x in (Q, DQ, C, DC))


# ------------------------------------------------------------------------------------------------ C20
ALT = []        # (label, thunk -> list of comparisons)


def alt(fn):
    ALT.append(fn)
    return fn


def args_of(f, given=(), coef=True, drop=()):
    out = {}
    for p, d in repo_side().signature(f):
        k = classify(d)
        if p in drop:
            continue
        if k == "req" or p in given or k in ("coef", "flag", "str") and coef:
            out[p] = param_value(p, d)
    return out


class Check:
    def __init__(self):
        self.items = []

    def same(self, what, f, a, g, b, scale=None, extra=FALSE, only=None, refusal=True):
        self.items.append((what, f, a, g, b, scale, extra, refusal))


def subsets(xs):
    out = [()]
    for x in xs:
        out += [s + (x,) for s in out]
    return out


@alt
def mass_or_diameter(c):
    """the nominal diameter or the mass with the density"""
    mods = {"etemadshahidi2020": "rho_armour", "jumelet2024": "rho_armour", "kramerburcharth2004_lowcrested": "rho_armour",
            "scaravaglione2025": "rho_armour", "vandermeer1988": "rho_armour", "vandermeer1988_modified": "rho_armour",
            "vandermeer2021": "rho_armour"}
    R = repo_side()
    fns = [(RA + m + "." + f, d) for m, d in mods.items() if R.has_module(RA + m) for f in R.functions(RA + m)]
    fns += [(RR + m + "." + f, "rho_rock") for m in ("vangent2007", "vangentpozueta2004") if R.has_module(RR + m) for f in R.functions(RR + m)]
    for f, dens in fns:
        if ".check_" in f:
            continue
        ps = {p for p, _ in R.signature(f)}
        for core in ("", "_core"):
            D, M, rho = "Dn50" + core, "M50" + core, "rho_core" if core else dens
            if D not in ps or M not in ps:
                continue
            others = [p for p, k in R.signature(f) if classify(k) == "opt" and p not in (D, M, rho)]
            oc = "" if core else "_core"
            others = [p for p in others if p not in ("M50" + oc,)]
            base = args_of(f, [p for p in others if p in ("Dn50" + oc, "Dn50", "Dn50_core")] + [rho])
            for extra in subsets([p for p in others if p not in base])[:4]:
                a = {**base, **{p: sym(p) for p in extra}}
                a[rho] = sym(rho)
                c.same(f"{D} or {M} with {rho}", f, {**a, D: sym(D)}, f, {**a, M: mul(sym(rho), pw(sym(D), 3))})


@alt
def angle_or_factor(c):
    """the angle or the influence factor computed from it"""
    R = repo_side()
    T, E, V, W = "taw2002", "eurotop2018", "vangent2021_caisson", "vangent2025"
    for mod, fns, gf in ((OV + T, (Q, DQ, C, DC), None), (OV + E, (Q, DQ, C, DC) + RUBBLE, "gamma_f"), (OV + "eurotop2007", RUBBLE, None),
                         (RU + T, ("calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p"), None),
                         (RU + E, ("calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p"), "gamma_f"),
                         (OV + W, (Q, DQ, C, DC), None)):
        g = (RU + T if "eurotop2007" in mod else mod) + ".calculate_influence_oblique_waves_gamma_beta"
        for name in fns:
            f = mod + "." + name
            opts = [("cot_alpha", "gamma_b"), ("cot_alpha",), ("cot_alpha_down", "cot_alpha_up")] if W not in mod else \
                [("cot_alpha", "gamma_f", "gamma_b", "gamma_v"), ("cot_alpha", "Dn50", "gamma_v")]
            for given in opts:
                given = [p for p in given if p in {q for q, _ in R.signature(f)}]
                a = args_of(f, given, coef=True, drop=("include_influence_wind",))
                ga = {"beta": sym("beta")}
                if gf:
                    ga["gamma_f"] = a["gamma_f"]
                c.same("beta or its gamma_beta", f, {**a, "beta": sym("beta")}, f, lambda a=a, g=g, ga=ga: {**a, "gamma_beta": first(run(g, ga)[0])})


@alt
def caisson_angle(c):
    """Van Gent 2021: the factor is computed from the angle with the coefficients of the wave conditions"""
    V = OV + "vangent2021_caisson."
    for name in (Q, DQ, C, DC):
        f = V + name
        for cc, short, para, cb, gp in ((1, 1, 0, 0.75, 1), (1, 1, 1, 0.75, 0.89), (1, 0, 0, 0.8, 1), (1.3, 1, 0, 0.7, 1),
                                        (1.3, 1, 1, 0.7, 0.85), (1.3, 0, 0, 0.8, 1)):
            for cross in ((0, 1) if short else (0,)):
                a = args_of(f, ("Hm0_swell",) if cross else ())
                a.update(c=num(cc), short_crested_waves=TRUE if short else FALSE, parapet=TRUE if para else FALSE,
                         crossing_seas=TRUE if cross else FALSE)
                c.same("beta or its gamma_beta", f, {**a, "beta": sym("beta")}, f, lambda a=a, cb=cb, gp=gp: {**a, "gamma_beta": first(run(
                    V + "calculate_influence_oblique_waves_gamma_beta", {"beta": sym("beta"), "gamma_p": num(gp), "c_beta": num(cb)})[0])})


@alt
def berm_factor(c):
    """TAW and EurOtop: the berm, or the factor the public iteration gives for it"""
    T, E = "taw2002", "eurotop2018"
    Z = ("calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p")
    for mod, it, fns in ((OV + T, RU + T, (Q, DQ, C, DC)), (OV + E, RU + E, (Q, DQ, C, DC)), (RU + T, RU + T, Z), (RU + E, RU + T, Z)):
        for name in fns:
            f = mod + "." + name
            a = args_of(f, ("cot_alpha", "gamma_beta"), coef=False)
            a.update({p: sym(p) for p in ("B_berm", "db", "gamma_f")})

            def gb(a=a, it=it, mod=mod):
                L = first(run(RU + T + ".calculate_berm_length", {"Hm0": a["Hm0"], "cot_alpha": a["cot_alpha"], "B_berm": a["B_berm"]})[0])
                k = {"Hm0": a["Hm0"], "Tmm10": a["Tmm10"], "cot_alpha_average": a["cot_alpha"], "B_berm": a["B_berm"], "L_berm": L,
                     "db": a["db"], "gamma_f": a["gamma_f"], "gamma_beta": a["gamma_beta"]}
                if mod == RU + E:
                    k.update(c3=num("1.5"), c4=num("1.07"))
                return {**a, "gamma_b": first(run(it + ".iteration_procedure_gamma_b", k)[0])}
            c.same("the berm or its factor gamma_b", f, a, f, gb)


@alt
def one_slope(c):
    """one slope, or the same slope given for both parts"""
    Z = ("calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p")
    for mod, fns in ((OV + "taw2002", (Q, DQ, C, DC)), (OV + "eurotop2018", (Q, DQ, C, DC) + RUBBLE), (RU + "taw2002", Z),
                     (RU + "eurotop2018", Z)):
        for name in fns:
            f = mod + "." + name
            for given in (("gamma_beta", "gamma_b"), ("gamma_beta",), ("beta",), ("beta", "gamma_b")):
                if "gamma_b" in given and name in RUBBLE:
                    continue
                a = args_of(f, given, coef=True, drop=("B_berm", "db"))
                c.same("cot_alpha or equal cot_alpha_down and cot_alpha_up", f, {**a, "cot_alpha": sym("cot_alpha")},
                       f, {**a, "cot_alpha_down": sym("cot_alpha"), "cot_alpha_up": sym("cot_alpha")})


@alt
def supplied_factors(c):
    """an influence factor, or the inputs it is computed from (Van Gent 2025)"""
    W = OV + "vangent2025."
    for name in (Q, DQ, C, DC):
        f = W + name
        a = args_of(f, ("cot_alpha", "gamma_b", "gamma_v", "gamma_beta"), drop=("include_influence_wind",))
        s = lambda a=a: first(run("core_physics.calculate_wave_steepness_s", {"H": sym("Hm0"), "T": sym("Tmm10")})[0])
        c.same("Dn50 or its gamma_f", f, {**a, "Dn50": sym("Dn50")}, f, lambda a=a, s=s: {**a, "gamma_f": first(
            run(W + "calculate_influence_friction_gamma_f", {"Dn50": sym("Dn50"), "Hm0": sym("Hm0"), "smm10": s()})[0])})
        a = args_of(f, ("cot_alpha", "gamma_f", "gamma_v", "gamma_beta"), drop=("include_influence_wind",))
        c.same("berm dimensions or their gamma_b", f, a, f, lambda a=a, s=s: {**a, "gamma_b": first(
            run(W + "calculate_influence_berm_gamma_b", {"Hm0": sym("Hm0"), "smm10": s(), "Ac": sym("Ac"), "B_berm": sym("B_berm"),
                                                         "BL": arith("sub", sym("Ac"), sym("db"))})[0])})
        if name in (Q, DQ):
            a = args_of(f, ("cot_alpha", "gamma_f", "gamma_b", "gamma_beta"), drop=("include_influence_wind",))
            c.same("wall dimensions or their gamma_v", f, a, f, lambda a=a: {**a, "gamma_v": first(
                run(W + "calculate_influence_crest_wall_gamma_v", {"cot_alpha": sym("cot_alpha"), "Rc": sym("Rc"), "Ac": sym("Ac")})[0])})


@alt
def general_and_special(c):
    """special-purpose functions are the general one with the documented values"""
    V = RU + "vangent2001."
    for f in ("z1p", "z10p"):
        a = args_of(V + "calculate_wave_runup_height_" + f)
        c.same(f"{f} is zXp with its coefficients", V + "calculate_wave_runup_height_" + f, a, V + "calculate_wave_runup_height_zXp",
               {("H" if k == "Hs" else k): v for k, v in a.items()})
    a = args_of(V + "calculate_wave_runup_height_z2p")
    c.same("z2p is zXp with its coefficients", V + "calculate_wave_runup_height_z2p", {**a, "Hs": sym("Hs")},
           V + "calculate_wave_runup_height_zXp", {**a, "H": sym("Hs")})
    b = {k: v for k, v in a.items() if k not in ("c0", "c1")}
    c.same("z2p is zXp with its coefficients", V + "calculate_wave_runup_height_z2p", {**b, "Hm0": sym("Hm0")},
           V + "calculate_wave_runup_height_zXp", {**b, "H": sym("Hm0"), "c0": num(1.45), "c1": num("3.8")})
    for m in ("xbloc.", "xblocplus."):
        f, g = CA + m + "calculate_unit_mass_M", CA + m + "calculate_unit_volume_V"
        a = args_of(f)
        c.same("mass is density times volume", f, a, g, a, scale=sym("rho_armour"))
        f, g = CA + m + "calculate_wave_height_Hs_from_M", CA + m + "calculate_wave_height_Hs_from_V"
        a = args_of(g)
        b = {**a, "M": mul(sym("V"), sym("rho_armour"))}
        b.pop("V", None)
        c.same("wave height from mass or volume", f, b, g, a)
        f = CA + m + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed"
        g = CA + m + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed"
        c.same("seabed slope as percentage or cotangent", f, {"perc_slope": sym("perc_slope")}, g,
               {"cot_alpha": div(num(100), sym("perc_slope"))})
    for f, g in (("calculate_median_rock_mass_M50", "calculate_median_rock_mass_M50_no_damage"),
                 ("calculate_significant_wave_height_Hs", "calculate_significant_wave_height_Hs_no_damage")):
        a = args_of(RA + "hudson1959." + g)
        c.same("no damage is zero percent damage", RA + "hudson1959." + f, {**a, "damage_percentage": num(0)}, RA + "hudson1959." + g, a)


@alt
def forces(c):
    """forces from the run-up level or from the waves that cause it"""
    z = RU + "vangent2001.calculate_wave_runup_height_zXp"
    for k in ("FH", "FV"):
        f, g = f"{FW}calculate_{k}2p_perpendicular", f"{FW}calculate_{k}2p_perpendicular_from_z2p"
        a = args_of(f)
        keys = {p for p, _ in repo_side().signature(g)}

        def z2p(a=a):
            return first(run(z, {"H": a["Hm0"], "Tmm10": a["Tmm10"], "cot_alpha": a["cot_alpha"], "c0": a["c0"], "c1": a["c1"],
                                 "gamma": mul(a["gamma_f"], a["gamma_beta"])})[0])
        c.same("force from waves or from run-up level", f, a, g,
               lambda a=a, keys=keys, z2p=z2p: {**{p: v for p, v in a.items() if p in keys}, "z2p": z2p()})
        ob = f"{FW}calculate_{k}2p_oblique"
        inf = f"{FW}calculate_influence_oblique_waves_{'horizontal' if k == 'FH' else 'vertical'}_force_gamma_{k}_beta"
        a = args_of(ob)
        b = {p: v for p, v in a.items() if p != "beta"}
        c.same("oblique force is perpendicular force times its influence factor", ob, a, f, b,
               scale=lambda a=a, inf=inf, z2p=z2p: first(run(inf, {"z2p": z2p(), "Ac": a["Ac"], "beta": a["beta"]})[0]))
        g = {"z2p": sym("z2p"), "Ac": sym("Ac"), "beta": sym("beta")}
        c.same("influence factor is the general one with its coefficient", inf, g, FW + "calculate_influence_oblique_waves_force_gamma_F_beta",
               {**g, "gamma_A": num(1 if k == "FH" else "0.75")})
        c.same("normal incidence is beta zero", ob, {**a, "beta": num(0)}, f, b)


@alt
def same_angle_twice(c):
    """waves from the left and from the right load the structure equally"""
    R = repo_side()
    from ..api import PUBLIC
    for f in PUBLIC:
        if ".check_" in f or not R.has(f):
            continue
        for b in ("beta", "theta"):
            ps = [p for p, _ in R.signature(f)]
            if b not in ps:
                continue
            opts = [("cot_alpha", "gamma_b"), ("cot_alpha",), ("cot_alpha", "gamma_f", "gamma_b", "gamma_v"), ("cot_alpha", "Dn50", "gamma_v"),
                    ("cot_alpha_down", "cot_alpha_up"), ()]
            for given in opts:
                if not set(given) <= set(ps) and given:
                    continue
                a = args_of(f, given, drop=("include_influence_wind", "return_dict"))
                c.same(f"{b} and -{b}", f, {**a, b: sym(b)}, f, {**a, b: arith("neg", sym(b)) if False else mul(num(-1), sym(b))})


def check_alt(i, part, parts):
    o = Outcome()
    c = Check()
    try:
        ALT[i](c)
    except Exception as e:
        if not isinstance(e, (KeyError, AttributeError, Refuses)):
            raise
        o.ob(False, f"{ALT[i].__name__}: interface changed ({e})")
        return o
    for what, f, a, g, b, scale, extra, refusal in c.items[part::parts]:
        if missing(f, o) or missing(g, o):
            continue
        thunk, sthunk = b, scale
        try:
            if callable(b):
                b = b()
            va, ca = run(f, a)
            vb, cb = run(g, b)
            if callable(scale):
                scale = scale()
        except (Refuses, KeyError):
            o.ob(False, f"{f}: {what}: not analysable")
            continue
        if scale is not None and vb is not BOT:
            vb = scaled(vb, scale)
        shown = "+".join(sorted(p for p, d in repo_side().signature(f) if classify(d) == "opt" and p in a)) or "-"
        tag = f"{f.rpartition('.')[2]} [{shown}]: {what}"
        compare(o, f"{f}:{what}", tag, f, g, va, ca, vb, cb, extra=extra, refusal=refusal)
        o.count("comparisons")
        if f"{f}:{what}" in [x[0] for x in o.findings]:
            continue
        names = sorted({x for p, v in a.items() if isinstance(v, Node) and p not in arrays.SETTINGS
                        and classify(dict(repo_side().signature(f)).get(p)) != "coef" for x in syms(v)})
        ARRAY[:] = [names]
        try:
            b2 = thunk() if callable(thunk) else b
            k2 = sthunk() if callable(sthunk) else scale
            va, ca = run(f, a)
            vb, cb = run(g, b2)
        except (Refuses, Scalar, KeyError, RecursionError):
            continue
        finally:
            ARRAY.clear()
        if k2 is not None and vb is not BOT:
            vb = scaled(vb, k2)
        compare_arrays(o, f"{f}:{what}", tag, f, g, va, ca, vb, cb, names, extra)
        o.count("array comparisons")
    return o


def minimum(pid):
    return {"C02": 300, "C20": 100}[pid]


def units(pid, tier):
    if pid == "C02":
        out = []
        for i, (f, d, k) in enumerate(DIML):
            n = len(profiles(repo_side().signature(f), limit=160)) if repo_side().has(f) else 1
            p = 1 + n // 10
            out += [Unit(f"{f}#{j}", (check_diml, i, j, p), weight=n / p) for j in range(p)]
            out.append(Unit(f"{f}#arrays", (check_diml_arrays, i), weight=4))
        return out
    return [Unit(f"{fn.__name__}#{j}", (check_alt, i, j, 8)) for i, fn in enumerate(ALT) for j in range(8)]
