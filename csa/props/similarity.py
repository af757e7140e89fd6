"""Froude similarity: with all lengths scaled by a factor, periods by its root and masses by its cube, every result scales with
the power its dimension prescribes. The rule is applied to the terms of the analysed functions; no reference is involved."""
from fractions import Fraction

from ..api import PUBLIC, functions, where, missing
from ..compare import repo_side, profiles, raise_cond
from ..graph import Node, mk, num, sym, TRUE, FALSE, NAN, and_, or_, not_, sel, walk, syms
from ..interp import Tup, Dct, Rec, Choice, BOT, to_node, subst, arith
from .. import decide, identity, nf
from ..report import Unit, Outcome
from .checks import collect

H = Fraction(1, 2)
DIM = {1: """Ac B B1 BL B_berm B_element Bc Bt Bup Bwall D Dn Dn50 Dn50_core Fb Gc H H2p HD Hm0 Hm0_HF Hm0_LF Hm0_deep Hm0_swell
       Hs Hsi Hwall L L_berm Rc Rc2_front Rc2_rear Rc_rear d db h h_s hacc hc ht tt tup z1p z2p zXp""",
       H: "T Tm Tmax Tmm10 Tmm10_HF Tp Tpi", 3 * H: "q", 2: "FH FH2p FU FV2p Wup", 3: "M M50 M50_core MH MU V"}
DIMOF = {n: k for k, v in DIM.items() for n in v.split()}

# power of the results; default by the quantity in the function's name
BY_NAME = [("dimensionless", 0), ("diml", 0), ("stability_number_Ns", 0), ("correctionfactor", 0), ("correction_factor", 0), ("correction_term", 0),
           ("influence", 0), ("gamma", 0),
           ("overtopping_velocity", H), ("velocity", H), ("discharge_q", 3 * H), ("crest_freeboard", 1), ("runup_height", 1),
           ("setup_delta", 1), ("rock_mass", 3), ("unit_mass", 3), ("unit_volume", 3), ("wave_height", 1), ("diameter", 1),
           ("M50_from", 3), ("Dn50_from", 1), ("wavelength", 1), ("depth_above", 1), ("berm_length", 1),
           ("FH2p", 2), ("FV2p", 2), ("FH01p", 2), ("FV01p", 2), ("Wup", 2), ("transmission_Kt", 0), ("damage_", 0), ("steepness", 0),
           ("Iribarren", 0), ("buoyant", 0), ("S_from", 0), ("Nod_from", 0), ("KD_", 0), ("permeability", 0),
           ("fraction", 0), ("lookup", 0), ("safety_factors", 0), ("composite", 0)]
SPECIAL = {
    "structural.forces_caisson.goda1985.calculate_bearing_pressures": (1, 3, 2, 1),
    "structural.forces_caisson.goda1985.calculate_forces_and_reactions": (2, 2, 3, 3, 1, 1, 1, None, 0, 0),
    "structural.forces_caisson.goda1985.calculate_pressures_and_forces": (2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, None),
    "hydraulic.wave_runup.taw2002.iteration_procedure_z2p": None, "hydraulic.wave_runup.eurotop2018.iteration_procedure_z2p": None,
    "hydraulic.wave_overtopping.deridder2024.calculate_crest_freeboard_discharge_q_eq24": 1,
    "hydraulic.wave_overtopping.deridder2024.calculate_crest_freeboard_discharge_q_eq26": 1,
    "hydraulic.wave_overtopping.deridder2026.calculate_crest_freeboard_discharge_q_eq28": 1,
    "hydraulic.wave_overtopping.deridder2026.calculate_crest_freeboard_discharge_q_eq32": 1,
    "structural.stability_toe_berm.takahashi1990_caisson.calculate_significant_wave_height_Hs": "skip",
    "structural.stability_toe_berm.takahashi1990_caisson.calculate_significant_depth_above_toe_hacc": "skip",
    "structural.stability_rock_armour.kramerburcharth2004_lowcrested.calculate_crest_freeboard_Rc": 1,
}
DICT = {"FH": 2, "FU": 2, "MH": 3, "MU": 3, "p1": 1, "p2": 1, "p3": 1, "p4": 1, "pu": 1, "pe": 1, "te": 1, "tup": 1, "Wup": 2, "We": 2, "Me": 3,
        "SF_overturning": 0, "SF_sliding": 0, "hstar_c": 1, "h_5Hs": 1, "etastar": 1, "alpha1": 0, "alpha2": 0, "alpha3": 0}
LAM = sym("lambda_scale")


def power(s):
    if s in SPECIAL:
        return SPECIAL[s]
    f = s.rpartition(".")[2]
    for k, p in BY_NAME:
        if k in f:
            return p
    return "skip"


def scale(n, env=None):
    m = {}
    for p in syms(n):
        k = (env or {}).get(p, DIMOF.get(p))
        if k:
            m[sym(p).id] = arith("mul", arith("pow", LAM, num(k)), sym(p))
    return subst(n, m)


def items(v, k, path=""):
    """(path, node, power, condition)"""
    if isinstance(v, Choice):
        return items(v.a, k, path) + items(v.b, k, path)
    if isinstance(v, Rec):
        v = Dct(v.fields)
    if isinstance(v, Dct):
        return [x for kk, y in v.d.items() if kk in DICT for x in items(y, DICT[kk], f"{path}[{kk!r}]")]
    if isinstance(v, Tup):
        ks = k if isinstance(k, tuple) else (k,) + (None,) * (len(v.items) - 1)
        if len(ks) != len(v.items):
            return []
        return [x for i, (y, kk) in enumerate(zip(v.items, ks)) for x in items(y, kk, f"{path}[{i}]")]
    if k is None or isinstance(k, tuple):
        return []
    return [(path, to_node(v), k)]


ANY = "any"      # zero, nan: every power fits
CANDS = (Fraction(1), Fraction(0), H, Fraction(3), Fraction(2), 3 * H)


class Untyped(Exception):
    pass


class Infer:
    """power of length of a term under Froude scaling, by the rules of dimensional analysis (linear in the term)"""

    def __init__(self, env=None):
        self.env, self.memo, self.bv = dict(env or {}), {}, {}

    def same(self, *ps):
        r = ANY
        for p in ps:
            if p == ANY:
                continue
            if r == ANY:
                r = p
            elif r != p:
                raise Untyped
        return r

    def none(self, n):
        if self(n) not in (ANY, 0):
            raise Untyped

    def __call__(self, n):
        if n.id in self.memo:
            r = self.memo[n.id]
            if r is None:
                raise Untyped
            return r
        self.memo[n.id] = None
        r = self.memo[n.id] = self.go(n)
        return r

    def go(self, n):
        o, a = n.op, n.args
        if o == "num":
            return ANY if a[0] == 0 else Fraction(0)
        if o in ("nan", "inf", "none", "raised"):
            return ANY
        if o in ("pi", "euler", "bool", "bsym", "ssym", "str"):
            return Fraction(0)
        if o == "sym":
            return Fraction(self.env.get(a[0], DIMOF.get(a[0], 0)))
        if o == "bv":
            if a[0] in self.bv:
                return self.bv[a[0]]
            raise Untyped
        if o in ("add", "sub"):
            return self.same(self(a[0]), self(a[1]))
        if o in ("mul", "div"):
            x, y = self(a[0]), self(a[1])
            if x == ANY or y == ANY and o == "mul":
                return ANY
            if y == ANY:
                raise Untyped
            return x + y if o == "mul" else x - y
        if o == "pow":
            x = self(a[0])
            self.none(a[1])
            if x in (ANY, 0):
                return x
            if a[1].op == "num":
                return x * a[1].args[0]
            raise Untyped
        if o == "neg":
            return self(a[0])
        if o == "fn":
            if a[0] in ("min", "max"):
                return self.same(*[self(x) for x in a[1:]])
            if a[0] == "abs":
                return self(a[1])
            if a[0] == "sign":
                self(a[1])
                return Fraction(0)
            for x in a[1:]:
                self.none(x)
            return Fraction(0)
        if o == "cmp":
            self.same(self(a[1]), self(a[2]))
            return Fraction(0)
        if o in ("and", "or", "not", "isnan", "any", "all", "truth", "streq"):
            for x in a:
                self(x)
            return Fraction(0)
        if o == "sel":
            self(a[0])
            return self.same(self(a[1]), self(a[2]))
        if o == "fix" and isinstance(a[0], int):
            return self.fix(a[0], a[1])
        if o == "idx" and a[0].op == "ext":
            return self(a[0])
        if o == "ext" and a[0].endswith(".disper"):
            kw, pos, i = {}, [], 1
            while i < len(a):
                if a[i].op == "str" and a[i].args[0].startswith("="):
                    kw[a[i].args[0][1:]] = a[i + 1]
                    i += 2
                else:
                    pos.append(a[i])
                    i += 1
            kw.update(zip(("w", "h", "g"), pos))
            if self(kw["w"]) == -H and self(kw["h"]) == 1 and self(kw.get("g", num(1))) == 0:
                return Fraction(-1)
        if o in ("ext", "red", "tup", "idx"):
            for x in a:
                if isinstance(x, Node):
                    self.none(x)
            return Fraction(0)
        raise Untyped

    def fix(self, lv, body):
        for p in CANDS:
            sub = Infer(self.env)
            sub.bv = {**self.bv, lv: p}
            try:
                if sub(body) in (p, ANY):
                    return p
            except (Untyped, KeyError):
                pass
        raise Untyped


def typed(n, k):
    try:
        return Infer()(n) in (ANY, k)
    except (Untyped, KeyError, RecursionError):
        return False


class Step(Exception):
    pass


def opened(n):
    """replace iteration results and wave numbers by symbols of their dimension (iterations whose step scales)"""
    env, m = {}, {}
    for _ in range(6):
        fx = [x for x in walk(n) if x.op == "fix" and not any(y.op == "fix" for y in walk(x.args[1])) and
              not any(y.op == "bv" and y.args[0] != x.args[0] for y in walk(x.args[1]))]
        if not fx:
            break
        f = fx[0]
        p = None
        for c in CANDS:
            b = subst(f.args[1], {mk("bv", f.args[0]).id: sym("x_it")})
            if identity.refute(scale(b, {**env, "x_it": c}), arith("mul", arith("pow", LAM, num(c)), b), n=80) is None:
                p = c
                break
        if p is None:
            raise Step
        name = f"x_fix{len(env)}"
        env[name] = p
        n = subst(n, {f.id: sym(name)})
    return n, env


def check_function(s, part, parts):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    k = power(s)
    done = set()
    for pr in profiles(R.signature(s), limit=160)[part::parts]:
        r = R.run(s, {p: v for p, v in pr.args.items() if p not in ("tolerance", "max_iter", "max_iterations")})
        if r.value is BOT:
            continue
        if any(e.kind in ("unbound", "badcall", "badname", "zerodiv", "unsupported") for e in r.events):
            o.ob(False, f"{s} [{pr.label}]: not analysable")
            continue
        rc = raise_cond(r)
        for path, n, kk in items(r.value, k):
            if n.id in done:
                continue
            done.add(n.id)
            if rc is not FALSE:
                n = sel(rc, num(0), n)
            if typed(n, kk):
                o.ob(True)
                o.count("decided by dimensional analysis of the term")
                continue
            try:
                m, env = opened(n)
            except Step:
                o.obligations += 1
                o.violation(s, f"{where(s)} [{pr.label}]{path}: the iteration's step does not scale with any power of length")
                return o
            a = scale(m, env)
            b = arith("mul", arith("pow", LAM, num(kk)), m)
            w = identity.refute(a, b, n=100)
            if w is not None:
                o.obligations += 1
                o.violation(s, f"{where(s)} [{pr.label}]{path}: result does not scale with length to the power {kk} when lengths, "
                               f"periods and masses are scaled alike: {w.text()}"[:900])
                return o
            o.ob(decide.equal_nodes(a, b, points=1, seconds=4).kind == "proved", f"{s} [{pr.label}]{path}: power {kk} not proved")
        for e in collect(r, not_(rc)):
            w = e.warns()
            if w.id in done or w in (TRUE, FALSE) or (e.v.op == "sym" or e.label.startswith(("Significant wave height", "Wave period"))):
                continue  # a range documented for an input itself, in model-test units
            done.add(w.id)
            n = sel(w, num(1), num(0))
            if typed(n, 0):
                o.ob(True)
                continue
            try:
                m, env = opened(n)
            except Step:
                o.ob(False, f"{s} [{pr.label}]: range of {e.label}")
                continue
            a = scale(m, env)
            w = identity.refute(a, m, n=60)
            if w is not None:
                o.obligations += 1
                o.violation(s, f"{where(s)} [{pr.label}]: the validity range of {e.label} depends on the scale: {w.text()}"[:900])
                return o
            o.ob(decide.equal_nodes(a, m, points=1, seconds=2).kind == "proved", f"{s} [{pr.label}]: range of {e.label}")
    return o


def minimum(pid):
    return 300


def units(pid, tier):
    R = repo_side()
    out = []
    for s in functions():
        if "check_" in s or power(s) == "skip" or power(s) is None:
            continue
        n = len(profiles(R.signature(s), limit=160)) if R.has(s) else 1
        p = 1 + n // 8
        out += [Unit(f"{s}#{j}", (check_function, s, j, p), weight=n / p) for j in range(p)]
    return out
