"""Identity testing of two extracted value terms.

The equality of two normal forms is refuted by exhibiting one assignment of the
parameters under which the *terms* differ (Schwartz-Zippel style).  Only terms
built by the analyser are looked at; no code of the analysed package runs.
"""
import itertools
import math
import random
import time

from .graph import Node, mk, walk, NAN, num, syms, show
from .interp import Tup, Dct, Choice, Rec, to_node, BOT


class Dom(Exception):
    """outside the domain of the real functions, or not a term we can evaluate"""


DOMV = object()
ROUNDED = {"add", "sub", "mul", "div", "pow", "fn"}
NANV, RAISEDV, NONEV = "<nan>", "<raised>", "<none>"
TOL = 1e-12


def _num(x):
    if isinstance(x, bool):
        return 1.0 if x else 0.0
    if isinstance(x, (int, float)):
        return float(x)
    raise Dom


class Eval:
    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.bv = {}
        self.used = set()       # uninterpreted functions met
        self.start, self.fixes = 1.0, 0     # starting point of iterations, iterations met
        self.jit = None

    def __call__(self, n):
        k = n.id
        if k in self.memo:
            r = self.memo[k]
            if r is DOMV:
                raise Dom
            return r
        try:
            r = self.go(n)
        except Dom:
            self.memo[k] = DOMV
            raise
        if self.jit and type(r) is float and n.op in ROUNDED and not self.bv:
            r *= 1.0 + 2e-15 * self.jit.uniform(-1.0, 1.0)
        self.memo[k] = r
        return r

    def go(self, n):
        o, a = n.op, n.args
        if o == "num":
            return float(a[0])
        if o in ("sym", "bsym", "ssym"):
            if (o, a[0]) not in self.env:
                raise Dom
            return self.env[(o, a[0])]
        if o == "nan":
            return NANV
        if o == "raised":
            return RAISEDV
        if o == "none":
            return NONEV
        if o == "inf":
            return math.inf * a[0]
        if o == "pi":
            return math.pi
        if o == "euler":
            return math.e
        if o == "bool":
            return a[0]
        if o == "str":
            return ("s", a[0])
        if o in ("add", "sub", "mul", "div", "pow"):
            x, y = self(a[0]), self(a[1])
            if x is NANV or y is NANV:
                return NANV
            x, y = _num(x), _num(y)
            try:
                if o == "add":
                    r = x + y
                elif o == "sub":
                    r = x - y
                elif o == "mul":
                    r = x * y
                elif o == "div":
                    if y == 0:
                        raise Dom
                    r = x / y
                else:
                    if x < 0 and y != int(y) or x == 0 and y < 0:
                        raise Dom
                    r = x ** y
            except (OverflowError, ValueError, ZeroDivisionError):
                raise Dom
            if isinstance(r, complex) or r != r:
                raise Dom
            return r
        if o == "neg":
            x = self(a[0])
            return x if x is NANV else -_num(x)
        if o == "fn":
            f = a[0]
            vs = [self(x) for x in a[1:]]
            if any(v is NANV for v in vs):
                return NANV
            vs = [_num(v) for v in vs]
            try:
                if f == "min":
                    return min(vs)
                if f == "max":
                    return max(vs)
                x = vs[0]
                if f == "abs":
                    return abs(x)
                if f == "sign":
                    return float((x > 0) - (x < 0))
                if f in ("arctan", "arcsin", "arccos"):
                    return getattr(math, "a" + f[3:])(x)
                if f in ("floor", "ceil", "trunc"):
                    return float(getattr(math, f)(x))
                if f == "round":
                    return float(round(x, int(vs[1]) if len(vs) > 1 else 0))
                if f in ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqrt"):
                    return getattr(math, f)(x)
            except (OverflowError, ValueError):
                raise Dom
            self.used.add("fn:" + f)
            return self.smooth("fn:" + f, vs)
        if o == "cmp":
            x, y = self(a[1]), self(a[2])
            if x is NANV or y is NANV:
                return False
            if isinstance(x, (tuple, str)) or isinstance(y, (tuple, str)):
                if a[0] == "==":
                    return x == y
                raise Dom
            x, y = _num(x), _num(y)
            eq = x == y or abs(x - y) <= TOL * max(abs(x), abs(y), 1e-300)
            if a[0] == "==":
                return eq
            if a[0] == "<":
                return x < y and not eq
            if a[0] == "<=":
                return x <= y or eq
            raise Dom
        if o == "streq":
            return self(a[0]) == self(a[1])
        if o == "and":
            return self.b(a[0]) and self.b(a[1])
        if o == "or":
            return self.b(a[0]) or self.b(a[1])
        if o == "not":
            return not self.b(a[0])
        if o in ("any", "all", "truth"):
            v = self(a[0])
            if isinstance(v, tuple):
                return bool(v[1])
            if v is NONEV:
                return False
            return bool(v)
        if o == "isnan":
            return self(a[0]) is NANV
        if o == "sel":
            return self(a[1]) if self.b(a[0]) else self(a[2])
        if o == "bv":
            if a[0] in self.bv:
                return self.bv[a[0]]
            raise Dom
        if o == "fix":
            return self.fix(n)
        if o in ("ext", "red", "idx"):
            vs = []
            for x in a:
                if not isinstance(x, Node):
                    vs.append(x)
                    continue
                vs.append(self(x))
            k = self.known(o, vs)
            if k is not None:
                return k
            self.used.add(o + ":" + str(a[0]) if o != "idx" else o)
            name = o + ":" + ",".join(str(v) for v in vs if not isinstance(v, (int, float)) or isinstance(v, bool))
            return self.smooth(name, [float(v) for v in vs if isinstance(v, (int, float)) and not isinstance(v, bool)])
        if o == "verdict":
            vs = [self(x) for x in a]
            return self.smooth("verdict", [float(v) for v in vs if isinstance(v, (int, float)) and math.isfinite(v)])
        if o == "tup":
            return ("tup",) + tuple(self(x) for x in a)
        raise Dom

    def known(self, o, vs):
        """library functions with a definite meaning"""
        if o == "idx" and isinstance(vs[0], tuple) and vs[0][:1] == ("tup",) and isinstance(vs[1], float) and vs[1] == int(vs[1]):
            t, i = vs[0][1:], int(vs[1])
            if -len(t) <= i < len(t):
                return t[i]
            raise Dom
        if o == "ext" and vs[0].endswith(".disper"):
            pos, kw, i = [], {}, 1
            while i < len(vs):
                if isinstance(vs[i], tuple) and vs[i][0] == "s" and vs[i][1].startswith("="):
                    kw[vs[i][1][1:]] = vs[i + 1]
                    i += 2
                else:
                    pos.append(vs[i])
                    i += 1
            kw.update(zip(("w", "h", "g"), pos))
            w, h, g = kw.get("w"), kw.get("h"), kw.get("g", 9.81)
            if not all(isinstance(x, float) and math.isfinite(x) and x > 0 for x in (w, h, g)):
                raise Dom
            return ("tup", wavenumber(w, h, g))
        if o == "ext" and vs[0] in ("numpy.isclose", "math.isclose", "numpy.allclose"):
            pos, kw, i = [], {}, 1
            while i < len(vs):
                if isinstance(vs[i], tuple) and vs[i][0] == "s" and vs[i][1].startswith("="):
                    kw[vs[i][1][1:]] = vs[i + 1]
                    i += 2
                else:
                    pos.append(vs[i])
                    i += 1
            np_ = vs[0].startswith("numpy")
            kw.update(zip(("a", "b", "rtol", "atol"), pos))
            x, y = kw.get("a"), kw.get("b")
            rel, ab = (kw.get("rtol", 1e-5), kw.get("atol", 1e-8)) if np_ else (kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0))
            if not all(isinstance(z, float) and math.isfinite(z) for z in (x, y, rel, ab)):
                raise Dom
            return abs(x - y) <= (ab + rel * abs(y) if np_ else max(rel * max(abs(x), abs(y)), ab))
        if o == "ext" and vs[0] == "len" and isinstance(vs[1], tuple) and vs[1][:1] == ("tup",):
            return float(len(vs[1]) - 1)
        if o == "ext" and vs[0] in (".lower", ".upper", ".strip") and len(vs) == 2 and isinstance(vs[1], tuple) and vs[1][0] == "s":
            return ("s", getattr(vs[1][1], vs[0][1:])())
        return None

    def b(self, n):
        v = self(n)
        if v is NANV:
            return True
        if v is NONEV:
            return False
        if isinstance(v, tuple):
            return bool(v[1])
        return bool(v)

    def fix(self, n):
        lv, body = n.args[0], n.args[1]
        if not isinstance(lv, int):
            raise Dom
        x = self.start
        self.fixes += 1
        saved, sm = dict(self.bv), self.memo
        self.memo = {}
        try:
            prev = None
            for i in range(400):
                self.bv[lv] = x
                self.memo = {}
                y = _num(self(body))
                if not math.isfinite(y):
                    raise Dom
                if abs(y - x) <= 1e-13 * abs(y) + 1e-25:
                    return y
                x = y if i < 150 else 0.5 * (x + y)
            raise Dom
        finally:
            self.bv, self.memo = saved, sm

    def smooth(self, name, vs):
        """an uninterpreted function: a fixed smooth positive function of its arguments"""
        rnd = random.Random(name)
        r = 0.6
        for v in vs:
            if not math.isfinite(v):
                raise Dom
            r += rnd.uniform(0.1, 0.6) * math.log1p(v * v) + rnd.uniform(0.05, 0.3) * math.atan(v) + 0.2
        return r


def wavenumber(w, h, g):
    """k with w^2 = g k tanh(k h), Newton from the deep water value"""
    q = w * w * h / g
    x = q / math.sqrt(math.tanh(q)) if q < 300 else q
    for _ in range(60):
        t = math.tanh(x)
        d = (x * t - q) / (t + x * (1 - t * t))
        x -= d
        if abs(d) <= 1e-15 * x:
            break
    return x / h


RANGES = [
    ("rho_water", (900.0, 1100.0)), ("rho", (1800.0, 3300.0)), ("g", (8.5, 11.0)), ("Delta", (0.7, 2.4)),
    ("beta", (-95.0, 95.0)), ("theta", (-95.0, 95.0)), ("cot", (0.4, 9.0)), ("N_waves", (300.0, 9000.0)), ("T", (1.5, 18.0)),
    ("gamma", (0.2, 1.3)), ("tan", (0.02, 1.0)), ("sigma", (-2.0, 2.0)), ("M", (50.0, 9000.0)), ("tol", (1e-5, 1e-3)),
    ("q", (1e-5, 0.5)), ("m", (0.005, 0.2)), ("P", (0.05, 0.7)), ("nv", (0.1, 0.6)), ("Hwall", (0.5, 6)), ("max_", (50.0, 2000.0)),
    ("s0", (0.005, 0.07)), ("sm", (0.005, 0.07)), ("offshore_wave_steepness", (0.001, 0.06)), ("S", (1.0, 15.0)),
]


def rng_for(name):
    name = name.partition("__")[0]
    for p, r in RANGES:
        if name == p or (len(p) > 1 and name.startswith(p)) or (p == "T" and name[:1] == "T"):
            return r
    return (0.2, 9.0)


def anysign(name):
    from . import nf
    return not nf.is_pos_name(name)


class Sampler:
    """assignments for the parameters of the given terms"""

    def __init__(self, terms, seed=1, base=None):
        self.rnd = random.Random(seed)
        self.syms, self.bsyms, self.strs = {}, set(), {}
        lits = set()
        for t in terms:
            for x in walk(t):
                if x.op == "sym":
                    self.syms.setdefault(x.args[0], set())
                elif x.op == "bsym":
                    self.bsyms.add(x.args[0])
                elif x.op == "ssym":
                    self.strs.setdefault(x.args[0], set())
                elif x.op == "str":
                    lits.add(x.args[0])
                elif x.op == "cmp":
                    for u, v in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                        if u.op == "fn" and u.args[0] == "abs":
                            u = u.args[1]
                        if u.op == "sym" and v.op == "num":
                            self.syms.setdefault(u.args[0], set()).add(float(v.args[0]))
        self.lits = sorted(lits)
        self.base = base or {}

    def point(self):
        r = self.rnd
        e = {}
        scale = math.exp(r.uniform(-1.2, 1.2))
        for s in sorted(self.syms):
            lo, hi = rng_for(s)
            u = r.random()
            spec = sorted(self.syms[s])
            if spec and u < 0.25:
                v = r.choice(spec)
                if r.random() < 0.2 and anysign(s):
                    v = -v
                if r.random() < 0.5:
                    v *= math.exp(r.uniform(-0.3, 0.3))
            elif u < 0.75:
                v = math.exp(r.uniform(math.log(lo), math.log(hi))) if lo > 0 else r.uniform(lo, hi)
                if (lo, hi) == (0.2, 9.0):
                    v *= scale
            else:
                v = r.uniform(lo, hi)
            if anysign(s) and lo > 0 and r.random() < 0.15:
                v = -v
            e[("sym", s)] = v
        for s in self.bsyms:
            e[("bsym", s)] = r.random() < 0.5
        for s in self.strs:
            e[("ssym", s)] = ("s", r.choice(self.lits + ["other-option"]))
        e.update(self.base)
        return e


def differ(x, y, rtol=1e-6):
    if x == y:
        return False
    sp = (str, tuple, bool)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[0] == "tup":
        return any(differ(p, q, rtol) for p, q in zip(x[1:], y[1:]))
    if isinstance(x, bool) and isinstance(y, (float, bool)) or isinstance(y, bool) and isinstance(x, float):
        return float(x) != float(y)
    if isinstance(x, sp) or isinstance(y, sp):
        return x != y
    if not (math.isfinite(x) and math.isfinite(y)):
        return math.isfinite(x) != math.isfinite(y) or x != y
    return abs(x - y) > rtol * max(abs(x), abs(y)) and abs(x - y) > 1e-13


def flat(v):
    if isinstance(v, Tup):
        return [x for i in v.items for x in flat(i)]
    if isinstance(v, Dct):
        return [x for i in v.d.values() for x in flat(i)]
    if isinstance(v, Rec):
        return [x for i in v.fields.values() for x in flat(i)]
    return [to_node(v)]


class Witness:
    def __init__(self, env, x, y, prof=None):
        self.env, self.x, self.y = env, x, y

    def text(self):
        a = ", ".join(f"{k[1]}={v:.6g}" if isinstance(v, float) else f"{k[1]}={v[1] if isinstance(v, tuple) else v}"
                      for k, v in sorted(self.env.items(), key=lambda kv: kv[0][1]))
        f = lambda z: f"{z:.8g}" if isinstance(z, float) else str(z)
        return f"at {a}: {f(self.x)} versus {f(self.y)}"


def refute(a, b, n=200, seed=1, rtol=1e-6, base=None):
    """-> Witness or None"""
    if a is b:
        return None
    s = Sampler([a, b], seed, base)
    loose = tries = 0
    for _ in range(n):
        env = s.point()
        try:
            ev, ew = Eval(env), Eval(env)
            x, y = ev(a), ew(b)
        except (Dom, RecursionError):
            continue
        if ev.used != ew.used:      # a library function without a model on one side only: no evidence
            continue
        if differ(x, y, rtol):
            # robust: not an artefact of rounding next to a switching point
            ok = True
            if not isinstance(x, (str, tuple, bool)) and not isinstance(y, (str, tuple, bool)):
                ok = abs(x - y) > 1e-9 * max(abs(x), abs(y), 1e-9)
            if ok and (ev.fixes or ew.fixes):
                ok = settled(a, env, x) and settled(b, env, y)
                if not ok and tries < 12:
                    tries += 1
                    loose += disjoint(a, b, env)
                    ok = loose >= 3
            if ok and stable(a, b, env):
                return Witness(env, x, y)
    return None


STARTS = [10 ** (k / 10) for k in range(-30, 31)]


def disjoint(a, b, env):
    """iterations that do not end in one value from everywhere: no end of the one is an end of the other"""
    ends = []
    for t in (a, b):
        got = []
        for st in STARTS:
            ev = Eval(env)
            ev.start = st
            try:
                x = ev(t)
            except (Dom, RecursionError):
                continue
            if isinstance(x, (str, tuple, bool)):
                return False
            if not any(not differ(x, y, 1e-9) for y in got):
                got.append(x)
        ends.append(got)
    return bool(ends[0] and ends[1]) and all(differ(x, y, 1e-6) for x in ends[0] for y in ends[1])


def stable(a, b, env):
    """the difference survives random rounding of every operation: no artefact of cancellation or of a switching point"""
    for seed in (1, 2, 3):
        ev, ew = Eval(env), Eval(env)
        ev.jit, ew.jit = random.Random(seed), random.Random(seed + 100)
        try:
            x, y = ev(a), ew(b)
        except (Dom, RecursionError):
            continue
        if not differ(x, y, 1e-7):
            return False
    return True


def guards(terms):
    """differences whose sign decides between the cases of the terms"""
    out, seen = [], set()
    for t in terms:
        for n in walk(t):
            if n.op == "cmp" and n.args[0] in ("<", "<=", "=="):
                ps = [(n.args[1], n.args[2])]
            elif n.op == "fn" and n.args[0] in ("min", "max"):
                ps = [(n.args[1], x) for x in n.args[2:]]
            elif n.op == "fn" and n.args[0] in ("abs", "sign"):
                ps = [(n.args[1], num(0))]
            else:
                continue
            for p, q in ps:
                k = (p.id, q.id)
                if k not in seen and p is not q:
                    seen.add(k)
                    if not any(x.op in ("bv", "str", "ssym", "nan", "none") for y in (p, q) for x in walk(y)):
                        out.append((p, q))
    return out


def borders(terms, end, seed=5, points=8, span=4):
    """assignments next to the borders between the cases of the terms, which random points may miss: along one input at a
    time, over `span` decades either way, the places where a border is crossed are located and both sides are given"""
    s = Sampler(terms, seed)
    gs = guards(terms)
    if not gs:
        return
    names = {}
    for p, q in gs:
        names[p.id, q.id] = sorted({x.args[0] for y in (p, q) for x in walk(y) if x.op == "sym"})

    def gap(p, q, env):
        try:
            ev = Eval(env)
            return _num(ev(p)) - _num(ev(q))
        except (Dom, RecursionError):
            return None

    for _ in range(points):
        env = s.point()
        for p, q in gs:
            for v in names[p.id, q.id]:
                if time.time() > end:
                    return
                k = ("sym", v)
                v0 = env[k]
                if k in s.base or not v0:
                    continue
                grid = [v0 * 10.0 ** (i / 3.0) for i in range(-3 * span, 3 * span + 1)]
                lo, hi = rng_for(v)
                if lo < 0:
                    grid = [lo + (hi - lo) * i / 24.0 for i in range(25)]
                elif anysign(v):
                    grid = [-x for x in reversed(grid)] + grid
                last = None
                for x in grid:
                    d = gap(p, q, {**env, k: x})
                    if d is None:
                        last = None
                        continue
                    if last is not None and (d > 0) != (last[1] > 0):
                        lo, hi = last[0], x
                        for _i in range(45):
                            mid = 0.5 * (lo + hi)
                            m = gap(p, q, {**env, k: mid})
                            if m is None:
                                break
                            if (m > 0) == (last[1] > 0):
                                lo = mid
                            else:
                                hi = mid
                        for f in (1e-4, 1e-2, 0.08, 0.4):
                            for z in (lo - f * abs(lo), hi + f * abs(hi)):
                                yield {**env, k: z}
                    last = (x, d)


def far(terms, end, seed=9, points=5, span=4):
    """assignments in which one input is far from its usual size"""
    s = Sampler(terms, seed)
    for _ in range(points):
        env = s.point()
        for v in sorted(s.syms):
            k = ("sym", v)
            if k in s.base or rng_for(v)[0] < 0:
                continue
            for i in range(-span, span + 1):
                if time.time() > end:
                    return
                if i:
                    yield {**env, k: env[k] * 10.0 ** i}


def probe(a, b, seed=5, seconds=3.0, points=8, rtol=1e-6, span=4):
    """search for a difference next to the borders and far away"""
    now = time.time()
    loose = tries = 0
    for env in itertools.chain(far([a, b], now + seconds / 3, span=span), borders([a, b], now + seconds, seed, points, span)):
        try:
            ev, ew = Eval(env), Eval(env)
            x, y = ev(a), ew(b)
        except (Dom, RecursionError):
            continue
        if ev.used != ew.used or not differ(x, y, rtol):
            continue
        if (ev.fixes or ew.fixes) and not (settled(a, env, x) and settled(b, env, y)):
            if tries >= 12:
                continue
            tries += 1
            loose += disjoint(a, b, env)
            if loose < 3:
                continue
        if stable(a, b, env):
            return Witness(env, x, y)
    return None


def settled(n, env, x):
    """the iterations in the term end in the same value from other starting points"""
    for st in (0.03, 25.0):
        ev = Eval(env)
        ev.start = st
        try:
            y = ev(n)
        except (Dom, RecursionError):
            return False
        if differ(x, y, 1e-7):
            return False
    return True
