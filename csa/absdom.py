"""Interval and monotonicity analysis of value-graph terms (no values are computed: intervals of reals are propagated)."""
import math

from .graph import Node, mk, num, sym, walk, syms
from . import nf

INF = math.inf


def mulb(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def lim_exp(x):
    return INF if x > 700 else math.exp(x)


class Ctx:
    """ranges of parameters and of terms a branch has decided"""

    def __init__(self, ranges, known=None):
        self.ranges = ranges
        self.known = known or {}
        self.memo = {}
        self.mono_memo = {}

    def having(self, c, truth):
        """context in which condition c has the given truth"""
        out = dict(self.known)
        self.learn(c, truth, out)
        return Ctx(self.ranges, out) if out != self.known else self

    def learn(self, c, truth, out):
        if c.op == "not":
            return self.learn(c.args[0], not truth, out)
        if c.op == "and" and truth or c.op == "or" and not truth:
            self.learn(c.args[0], truth, out)
            self.learn(c.args[1], truth, out)
            return
        if c.op != "cmp" or c.args[0] not in ("<", "<="):
            if c.op == "cmp" and c.args[0] == "==" and truth:
                for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                    v = self(y)
                    if v[0] == v[1]:
                        self.cut(x, v[0], v[1], out)
            return
        x, y = c.args[1], c.args[2]
        if not truth:
            x, y = y, x
        vx, vy = self(x), self(y)
        self.cut(x, -INF, vy[1], out)
        self.cut(y, vx[0], INF, out)

    def cut(self, n, lo, hi, out):
        if n.op == "num":
            return
        a, b = out.get(n.id, self(n))
        out[n.id] = (max(a, lo), min(b, hi))
        if n.op == "fn" and n.args[0] == "abs" and hi < INF:
            self.cut(n.args[1], -hi, hi, out)
        if n.op == "neg":
            self.cut(n.args[0], -hi, -lo, out)

    def __call__(self, n):
        if n.id in self.known:
            return self.known[n.id]
        r = self.memo.get(n.id)
        if r is None:
            try:
                r = self.go(n)
            except (OverflowError, ValueError, ZeroDivisionError):
                r = (-INF, INF)
            if r[0] != r[0] or r[1] != r[1]:
                r = (-INF, INF)
            if r[0] < 0 and not (r[0] > -1e-9 and False):
                try:
                    if n.op in ("add", "sub") and nf.is_pos(nf.poly(n)):
                        r = (0.0, r[1])
                except Exception:
                    pass
            self.memo[n.id] = r
        return r

    def go(self, n):
        o, a = n.op, n.args
        if o == "num":
            return (float(a[0]), float(a[0]))
        if o == "pi":
            return (math.pi, math.pi)
        if o == "euler":
            return (math.e, math.e)
        if o == "inf":
            return (INF * a[0], INF * a[0])
        if o == "sym":
            return self.ranges(a[0])
        if o == "neg":
            x = self(a[0])
            return (-x[1], -x[0])
        if o == "add":
            x, y = self(a[0]), self(a[1])
            return (x[0] + y[0], x[1] + y[1])
        if o == "sub":
            x, y = self(a[0]), self(a[1])
            return (x[0] - y[1], x[1] - y[0])
        if o == "mul":
            x, y = self(a[0]), self(a[1])
            if a[0] is a[1]:
                m = max(abs(x[0]), abs(x[1]))
                return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])) ** 2, mulb(m, m))
            c = [mulb(p, q) for p in x for q in y]
            return (min(c), max(c))
        if o == "div":
            x, y = self(a[0]), self(a[1])
            if y[0] < 0 < y[1]:
                return (-INF, INF)
            inv = (1 / y[1] if y[1] not in (0, INF) else (0.0 if y[1] == INF else -INF),
                   1 / y[0] if y[0] not in (0, -INF) else (INF if y[0] == 0 else 0.0))
            if y[1] == 0:
                inv = (-INF, 1 / y[0] if y[0] != -INF else 0.0)
            c = [mulb(p, q) for p in x for q in inv]
            return (min(c), max(c))
        if o == "pow":
            return self.power(self(a[0]), self(a[1]))
        if o == "fn":
            return self.fn(a[0], [self(x) for x in a[1:]])
        if o == "sel":
            x = self.having(a[0], True)(a[1])
            y = self.having(a[0], False)(a[2])
            if x[0] > x[1] or self.dead(a[0], True):
                return y
            if y[0] > y[1] or self.dead(a[0], False):
                return x
            return (min(x[0], y[0]), max(x[1], y[1]))
        if o == "fix":
            return self(a[1])       # whatever the previous step, a step's value is in here
        if o == "ext" and a[0] in ("disper",):
            return (0.0, INF)
        return (-INF, INF)

    def dead(self, c, truth):
        return any(v[0] > v[1] for v in self.having(c, truth).known.values())

    def power(self, x, e):
        if e[0] == e[1] and e[0] == int(e[0]) and x[0] < 0:
            k = int(e[0])
            if k < 0:
                return (-INF, INF) if k % 2 else (0.0, INF)
            c = [x[0] ** k if x[0] > -INF else (INF if k % 2 == 0 else -INF), x[1] ** k if x[1] < INF else INF]
            return (0.0 if k % 2 == 0 and x[1] >= 0 else min(c), max(c))
        lo = max(x[0], 0.0)
        hi = x[1]

        def p(b, q):
            if b == 0:
                return 1.0 if q == 0 else 0.0 if q > 0 else INF
            if b == INF:
                return 1.0 if q == 0 else INF if q > 0 else 0.0
            if abs(q) == INF:
                return 1.0 if b == 1 else (INF if (b > 1) == (q > 0) else 0.0)
            return b ** q
        c = [p(b, q) for b in (lo, hi) for q in e]
        return (min(c), max(c))

    def fn(self, f, v):
        x = v[0]
        if f == "min":
            return (min(y[0] for y in v), min(y[1] for y in v))
        if f == "max":
            return (max(y[0] for y in v), max(y[1] for y in v))
        if f == "abs":
            m = max(abs(x[0]), abs(x[1]))
            return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), m)
        if f == "exp":
            return (lim_exp(x[0]), lim_exp(x[1]))
        if f == "log":
            return (-INF if x[0] <= 0 else math.log(x[0]), INF if x[1] == INF else -INF if x[1] <= 0 else math.log(x[1]))
        if f == "sqrt":
            return (math.sqrt(max(x[0], 0)), INF if x[1] == INF else math.sqrt(max(x[1], 0)))
        if f == "tanh":
            return (math.tanh(x[0]), math.tanh(x[1]))
        if f in ("sinh",):
            return (-INF if x[0] < -700 else math.sinh(x[0]), INF if x[1] > 700 else math.sinh(x[1]))
        if f == "cosh":
            m = max(abs(x[0]), abs(x[1]))
            lo = 1.0 if x[0] <= 0 <= x[1] else math.cosh(min(abs(x[0]), abs(x[1]), 700))
            return (lo, INF if m > 700 else math.cosh(m))
        if f in ("sin", "cos"):
            if f == "cos" and -math.pi / 2 - 1e-9 <= x[0] and x[1] <= math.pi / 2 + 1e-9:
                lo = min(math.cos(x[0]), math.cos(x[1]))
                return (max(lo, 0.0), 1.0 if x[0] <= 0 <= x[1] else max(math.cos(x[0]), math.cos(x[1])))
            if f == "sin" and -math.pi / 2 <= x[0] and x[1] <= math.pi / 2:
                return (math.sin(x[0]), math.sin(x[1]))
            return (-1.0, 1.0)
        if f == "arctan":
            return (math.atan(x[0]), math.atan(x[1]))
        if f == "tan" and -math.pi / 2 < x[0] and x[1] < math.pi / 2:
            return (math.tan(x[0]), math.tan(x[1]))
        return (-INF, INF)

    # ------------------------------------------------------------ monotonicity in one parameter
    def mono(self, n, p):
        """0 independent, +1 non-decreasing, -1 non-increasing, None unknown"""
        k = (n.id, p)
        if k not in self.mono_memo:
            self.mono_memo[k] = 0 if p not in syms(n) else self.mono_(n, p)
        return self.mono_memo[k]

    def sign(self, n):
        v = self(n)
        return 1 if v[0] >= 0 else -1 if v[1] <= 0 else None

    def mono_(self, n, p):
        o, a = n.op, n.args
        if o == "sym":
            return 1
        if o == "neg":
            return flip(self.mono(a[0], p), -1)
        if o == "add":
            return join(self.mono(a[0], p), self.mono(a[1], p))
        if o == "sub":
            return join(self.mono(a[0], p), flip(self.mono(a[1], p), -1))
        if o == "mul":
            return join(flip(self.mono(a[0], p), self.sign(a[1])), flip(self.mono(a[1], p), self.sign(a[0])))
        if o == "div":
            return join(flip(self.mono(a[0], p), self.sign(a[1])), flip(flip(self.mono(a[1], p), self.sign(a[0])), -1)
                        if self.sign(a[1]) is not None else None)
        if o == "pow":
            b, e = self(a[0]), self(a[1])
            mb, me = self.mono(a[0], p), self.mono(a[1], p)
            r = flip(mb, self.sign(a[1])) if mb else mb
            if me:
                r = join(r, flip(me, 1 if b[0] >= 1 else -1 if b[1] <= 1 else None))
            elif me is None:
                r = None
            return r
        if o == "fn":
            f = a[0]
            if f in ("min", "max"):
                r = 0
                for x in a[1:]:
                    r = join(r, self.mono(x, p))
                return r
            if f in ("exp", "log", "sqrt", "tanh", "sinh", "arctan"):
                return self.mono(a[1], p)
            if f == "abs":
                return flip(self.mono(a[1], p), self.sign(a[1]))
            if f == "cosh":
                return flip(self.mono(a[1], p), self.sign(a[1]))
            if f == "cos":
                x = self(a[1])
                return flip(self.mono(a[1], p), -1 if x[0] >= 0 and x[1] <= math.pi else 1 if x[0] >= -math.pi and x[1] <= 0 else None)
            return None
        if o == "sel":
            x, y = self.having(a[0], True).mono(a[1], p), self.having(a[0], False).mono(a[2], p)
            if p not in syms(a[0]):
                if self.dead(a[0], True):
                    return y
                if self.dead(a[0], False):
                    return x
                return join(x, y)
            c = a[0]
            # one switch in p: ordered branches keep the trend
            if c.op == "cmp" and c.args[0] in ("<", "<=") and x is not None and y is not None:
                d = join(self.mono(c.args[1], p), flip(self.mono(c.args[2], p), -1))  # trend of lhs - rhs
                if d:
                    # as p grows: d > 0 -> from branch true to false
                    frm, to = (a[1], a[2]) if d > 0 else (a[2], a[1])
                    cf = self.having(c, d > 0)
                    ct = self.having(c, d < 0)
                    vf, vt = cf(frm), ct(to)
                    j = join(x, y)
                    if j is not None:
                        if j >= 0 and vf[1] <= vt[0]:
                            return 1
                        if j <= 0 and vf[0] >= vt[1]:
                            return -1
            return None
        return None


def flip(m, s):
    if m == 0:
        return 0
    if m is None or s is None:
        return None
    return m * s


def join(x, y):
    if x is None or y is None:
        return None
    if x == 0:
        return y
    if y == 0 or x == y:
        return x
    return None
