"""Algebraic normal form of value-graph terms, and term equivalence.

A numeric term is a generalised polynomial  sum c_i * prod atom_j ** e_ij  with
exact rational coefficients (floating only where pi, logs or roots of literals
enter), exponents that may themselves be polynomials, ``exp`` as a power of the
atom E.  Piecewise terms are compared by Shannon expansion over canonical
comparison atoms.  This is value numbering modulo algebra: two terms that get
the same normal form denote the same function of the parameters.
"""
import math
import re
import sys
from fractions import Fraction

from .graph import (Node, mk, num, NAN, INF, NINF, TRUE, FALSE, NONE, ZERO, ONE, PI, EUL, boolean, isnum,
                    is_boolish, not_, and_, or_, sel, walk, syms, show, children, fnum)
from .interp import (arith, neg, compare, merge, subst, rebuild, truth, to_node, Tup, Dct, Choice, Rec, BOT, isnan_)

sys.setrecursionlimit(30000)
RTOL = 1e-9

# ------------------------------------------------------------------ positivity
ANYSIGN = re.compile(r"^(Rc|Ac|beta.*|db|B_berm|hc|Rca|Rcb|z\w*|delta.*|db\w*|Kt|x|value|values|a|b|c_beta|sigma.*|"
                     r"gamma_corr|H.*_swell|min_value|max_value|Bt|B|B1|d1|hacc|HAcc|S|Nod|mu|wind.*|u\w*|phi|Bc|Gc)$")


def is_pos_name(n):
    return not ANYSIGN.match(n.partition("__")[0])


# ------------------------------------------------------------------ coefficients
def cclose(a, b):
    if a == b:
        return True
    a, b = float(a), float(b)
    return abs(a - b) <= RTOL * max(abs(a), abs(b))


def cpow(c, e):
    """c ** e for numeric c>0 (or integer e)"""
    if isinstance(e, Fraction) and e.denominator == 1 and abs(e) <= 12:
        if isinstance(c, Fraction):
            return c ** int(e)
        return float(c) ** int(e)
    if c == 1:
        return Fraction(1)
    f = float(c)
    if f < 0:
        raise ValueError
    if isinstance(c, Fraction) and isinstance(e, Fraction):
        # exact roots such as sqrt(0.25)
        n = e.denominator
        if n in (2, 3, 4):
            r = round(float(c.numerator) ** (1.0 / n)), round(float(c.denominator) ** (1.0 / n))
            if r[0] ** n == c.numerator and r[1] ** n == c.denominator and abs(e.numerator) <= 12:
                return Fraction(r[0], r[1]) ** e.numerator
    return f ** float(e)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "data", "idx", "pos", "txt")


ATOMS = []
_atom_buckets = {}


def _new_atom(kind, data, pos, txt):
    a = Atom()
    a.kind, a.data, a.idx, a.pos, a.txt = kind, data, len(ATOMS), pos, txt
    ATOMS.append(a)
    return a


def atom(kind, data, pos=False, txt=None):
    key = (kind, data)
    a = _atom_buckets.get(key)
    if a is None:
        a = _new_atom(kind, data, pos, txt)
        _atom_buckets[key] = a
    return a


E = atom("E", None, True, "e")


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t, self._k = t, None

    def __repr__(self):
        return ptxt(self)


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        if a in d:
            s = eadd(d[a], e)
            if s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def eadd(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x + y
    return enorm(padd(epoly(x), epoly(y)))


def emul(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x * y
    return enorm(pmul(epoly(x), epoly(y)))


def epoly(x):
    return pconst(x) if isinstance(x, Fraction) else x


def enorm(p):
    """exponent: Fraction if constant rational, else interned polynomial"""
    c = const_of(p)
    if c is not None:
        if isinstance(c, Fraction):
            return c
        return Fraction(c).limit_denominator(10 ** 9)
    return intern(p)


_interned = {}


def intern(p):
    k = frozenset(p.t)
    lst = _interned.setdefault(k, [])
    for q in lst:
        if all(cclose(q.t[m], p.t[m]) for m in k):
            return q
    lst.append(p)
    return p


def pconst(c):
    if not isinstance(c, (Fraction, float)):
        c = Fraction(c)
    return Poly({(): c} if c != 0 else {})


P0, P1 = Poly({}), Poly({(): Fraction(1)})


def patom(a, e=Fraction(1)):
    return Poly({((a.idx, e),): Fraction(1)})


def const_of(p):
    if not p.t:
        return Fraction(0)
    if len(p.t) == 1 and () in p.t:
        return p.t[()]
    return None


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        if m in t:
            s = t[m] + c
            big = max(abs(float(t[m])), abs(float(c)))
            if s == 0 or (isinstance(s, float) and abs(s) <= 1e-12 * big):
                del t[m]
            else:
                t[m] = s
        else:
            t[m] = c
    return Poly(t)


def pneg(a):
    return Poly({m: -c for m, c in a.t.items()})


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, k):
    if k == 0:
        return P0
    return Poly({m: c * k for m, c in a.t.items()})


MAXTERMS = 6000


class TooBig(Exception):
    pass


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if len(a.t) * len(b.t) > MAXTERMS:
        raise TooBig
    t = {}
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            f = _fixmono(m)
            if f is not None:
                q = pscale(f, c)
                extra = q if extra is None else padd(extra, q)
                continue
            if m in t:
                s = t[m] + c
                if s == 0 or (isinstance(s, float) and abs(s) <= 1e-12 * max(abs(float(t[m])), abs(float(c)))):
                    del t[m]
                else:
                    t[m] = s
            else:
                t[m] = c
    p = Poly(t)
    return padd(p, extra) if extra is not None else p


def _fixmono(m):
    """monomials needing rewriting: sin^2, sum-atom with positive integer power, E^const"""
    for i, (ai, e) in enumerate(m):
        if ai == 0:
            if isinstance(e, Fraction):
                rest = m[:i] + m[i + 1:]
                return pmul(Poly({(): math.exp(float(e))}), Poly({rest: Fraction(1)}))
            c = e.t.get(())
            if c is not None:
                e2 = Poly({k: v for k, v in e.t.items() if k != ()})
                rest = m[:i] + ((0, enorm(e2)),) + m[i + 1:]
                return pmul(Poly({(): math.exp(float(c))}), Poly({rest: Fraction(1)}))
            # exp(k*log x) = x**k
            for k, v in e.t.items():
                if len(k) >= 1:
                    for j, (bi, be) in enumerate(k):
                        if ATOMS[bi].kind == "log" and be == 1:
                            e2 = Poly({kk: vv for kk, vv in e.t.items() if kk != k})
                            expo = enorm(Poly({k[:j] + k[j + 1:]: v}))
                            rest = m[:i] + m[i + 1:]
                            r = Poly({rest: Fraction(1)})
                            if e2.t:
                                r = pmul(r, ppow_poly(patom(E), e2))
                            return pmul(r, ppow(ATOMS[bi].data, expo))
            continue
        a = ATOMS[ai]
        if a.kind == "sum" and isinstance(e, Fraction) and e > 0 and e.denominator == 1 and e <= 8:
            rest = m[:i] + m[i + 1:]
            r = Poly({rest: Fraction(1)})
            for _ in range(int(e)):
                r = pmul(r, a.data)
            return r
        if a.kind == "sin" and isinstance(e, Fraction) and e >= 2 and e.denominator == 1:
            cosa = patom(atom("cos", a.data, False))
            rest = m[:i] + (((ai, e - 2),) if e != 2 else ()) + m[i + 1:]
            return pmul(Poly({rest: Fraction(1)}), psub(P1, pmul(cosa, cosa)))
    return None


def content(p):
    """(coef, monomial, primitive poly) with p = coef * mono * prim, coef>0"""
    # rational-exponent atoms common to all terms
    common = None
    for m in p.t:
        d = {a: e for a, e in m}
        if common is None:
            common = d
        else:
            new = {}
            for a in set(common) | set(d):
                x, y = common.get(a, Fraction(0)), d.get(a, Fraction(0))
                if isinstance(x, Fraction) and isinstance(y, Fraction):
                    mn = min(x, y)
                    if mn != 0:
                        new[a] = mn
                elif x == y:
                    new[a] = x
                elif a == 0:
                    pass
            common = new
    common = common or {}
    inv = tuple(sorted(((a, (-e if isinstance(e, Fraction) else enorm(pneg(e)))) for a, e in common.items()),
                       key=lambda x: x[0]))
    t = {}
    for m, c in p.t.items():
        t[_mono_mul(m, inv)] = c
    lead = min(t, key=mono_order)
    lc = abs(t[lead])
    prim = Poly({m: c / lc for m, c in t.items()})
    return lc, tuple(sorted(common.items(), key=lambda x: x[0])), prim


def ekey(e):
    return (0, float(e), "") if isinstance(e, Fraction) else (1, 0.0, id(e))


def mono_order(m):
    return (len(m) == 0, [(a, ekey(e)) for a, e in m])


def is_pos(p):
    return bool(p.t) and all(c > 0 and mono_pos(m) for m, c in p.t.items())


def mono_pos(m):
    for a, e in m:
        if not ATOMS[a].pos and not (isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0):
            return False
    return True


_FACTORS = {}


def ppow(p, e):
    """e: Fraction or Poly"""
    if isinstance(e, Poly):
        c = const_of(e)
        if c is None:
            return ppow_poly(p, e)
        e = c if isinstance(c, Fraction) else Fraction(c).limit_denominator(10 ** 9)
    if e == 1:
        return p
    if e == 0:
        return P1
    if not p.t:
        if e > 0:
            return P0
        return patom(atom("zeropow", e))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0 and e.denominator != 1:
            # root of a negative coefficient: keep the sign with the atom
            return pmul(pconst(cpow(-c, e)), patom(atom("sum", intern(Poly({m: Fraction(-1)})), False), e))
        r = pconst(cpow(c, e))
        return pmul(r, pmono([(a, emul(x, e)) for a, x in m]))
    if e.denominator == 1 and 1 < e <= 8 and len(p.t) ** int(e) < 400:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        if len(r.t) <= 64:
            _, _, rp = content(r)
            _FACTORS.setdefault(id(intern(rp)), (p, e))
        return r
    lc, m, prim = content(p)
    if e.denominator != 1:
        # a power expanded earlier: (p**n)**e = p**(n e), up to the content
        f = _FACTORS.get(id(intern(prim)))
        if f is not None:
            base, n = f
            bl, bm, bp = content(base)
            if len(bp.t) > 1:
                at = atom("sum", intern(bp), is_pos(bp))
                r = pmul(pconst(cpow(lc, e)), pmono([(at.idx, n * e)]))
                # content(base**n) primitive part = bp**n up to a constant
                full = ppow(bp, n)
                fl, fm, _ = content(full)
                r = pmul(r, pconst(cpow(fl, -e)))
                r = pmul(r, pmono([(x, emul(y, -e)) for x, y in fm]))
                return pmul(r, pmono([(x, emul(y, e)) for x, y in m]))
    sgn = 1
    if e.denominator == 1:
        lead = min(prim.t, key=mono_order)
        if prim.t[lead] < 0:
            prim = pneg(prim)
            sgn = -1 if int(e) % 2 else 1
    if len(prim.t) == 1:
        base = ppow(prim, e)
    else:
        a = atom("sum", intern(prim), is_pos(prim))
        base = pmono([(a.idx, e)])
    r = pmul(pconst(cpow(lc, e) * sgn), base)
    return pmul(r, pmono([(a, emul(x, e)) for a, x in m]))


def pmono(pairs):
    r = P1
    d = {}
    for a, e in pairs:
        d[a] = eadd(d[a], e) if a in d else e
    m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0]))
    f = _fixmono(m)
    return f if f is not None else Poly({m: Fraction(1)})


def ppow_poly(p, e):
    e = enorm(e)
    if isinstance(e, Fraction):
        return ppow(p, e)
    if not p.t:
        return patom(atom("zeropow", e))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0:
            return patom(atom("negpow", (intern(p), e)))
        r = P1
        if c != 1:
            r = pmono([(0, enorm(pscale(e, math.log(float(c)))))])
        return pmul(r, pmono([(a, emul(x, e)) for a, x in m]))
    lc, m, prim = content(p)
    a = atom("sum", intern(prim), is_pos(prim))
    r = pmono([(a.idx, e)])
    if lc != 1:
        r = pmul(r, pmono([(0, enorm(pscale(e, math.log(float(lc)))))]))
    return pmul(r, pmono([(x, emul(y, e)) for x, y in m]))


def plog(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0:
            r = pconst(math.log(float(c))) if c != 1 else P0
            for a, e in m:
                if a == 0:
                    r = padd(r, epoly(e))
                else:
                    at = ATOMS[a]
                    la = patom(atom("log", intern(at.data if at.kind == "sum" else patom(at))))
                    r = padd(r, pmul(epoly(e), la))
            return r
    elif p.t:
        lc, m, prim = content(p)
        if lc > 0 and (lc != 1 or m):
            return padd(plog(Poly({m: lc})), plog(prim))
        if lc == 1 and not m:
            return patom(atom("log", intern(prim)))
    return patom(atom("log", intern(p)))


# ------------------------------------------------------------------ nodes -> poly
class Norm:
    """poly of a node (memoised on the node)"""

    def __init__(self):
        self.fix_reps = []

    def poly(self, n):
        p = n.memo.get("poly")
        if p is None:
            p = self._poly(n)
            n.memo["poly"] = p
        return p

    def _poly(self, n):
        o, a = n.op, n.args
        if o == "num":
            return pconst(a[0])
        if o == "pi":
            return pconst(math.pi)
        if o == "euler":
            return pconst(math.e)
        if o == "sym":
            return patom(atom("sym", a[0], is_pos_name(a[0]), a[0]))
        if o == "add":
            return padd(self.poly(a[0]), self.poly(a[1]))
        if o == "sub":
            return psub(self.poly(a[0]), self.poly(a[1]))
        if o == "neg":
            return pneg(self.poly(a[0]))
        if o == "mul":
            return pmul(self.poly(a[0]), self.poly(a[1]))
        if o == "div":
            return pmul(self.poly(a[0]), ppow(self.poly(a[1]), Fraction(-1)))
        if o == "pow":
            return ppow(self.poly(a[0]), self.poly(a[1]))
        if o == "fn":
            return self._fn(a[0], [x for x in a[1:]])
        if o == "sel":
            k = self.ckey(a[0])
            x, y = self.poly(a[1]), self.poly(a[2])
            if peq(x, y):
                return x
            return patom(atom("sel", (k, intern(x), intern(y)), False))
        if o in ("any", "all"):
            return self.poly(a[0])
        if o == "red":
            return patom(atom("red", (a[0], intern(self.poly(a[1])))))
        if o == "fix":
            return patom(self.fix_atom(n))
        if is_boolish(n):
            return self._poly(mk("sel", n, ONE, ZERO)) if n.op != "bool" else pconst(1 if n is TRUE else 0)
        # everything else: uninterpreted operator over normalised arguments
        key = tuple(self.argkey(x) for x in a)
        return patom(atom(o, key, False))

    def argkey(self, x):
        if not isinstance(x, Node):
            return x
        if x.op in ("str", "none", "bool", "nan", "inf", "fnref", "extname", "opq", "bsym", "ssym", "mu", "bv", "lv", "elem_"):
            return x
        if is_boolish(x):
            return ("c", self.ckey(x))
        if x.op == "tup":
            return ("t",) + tuple(self.argkey(y) for y in x.args)
        return intern(self.poly(x))

    def fix_atom(self, n):
        for rep, at in self.fix_reps:
            if rep is n:
                return at
        for rep, at in self.fix_reps:
            if rep.args[0] == n.args[0] and len(rep.args) == 2 and len(n.args) == 2:
                if syms(rep) != syms(n):
                    pass
                r = fix_equiv(rep, n)
                if r:
                    self.fix_reps.append((n, at))
                    return at
        at = _new_atom("fix", n, False, None)
        self.fix_reps.append((n, at))
        return at

    def _fn(self, f, args):
        ps = [self.poly(x) for x in args]
        p = ps[0]
        if f == "exp":
            return pmono([(0, enorm(p))])
        if f == "log":
            return plog(p)
        if f in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
            if f in ("tan", "tanh"):
                h = "h" if f == "tanh" else ""
                return pmul(self.trig("sin" + h, p), ppow(self.trig("cos" + h, p), Fraction(-1)))
            return self.trig(f, p)
        if f == "abs":
            if is_pos(p):
                return p
            if is_pos(pneg(p)):
                return pneg(p)
            if p.t:
                lc, m, prim = content(p)
                lead = min(prim.t, key=mono_order)
                if prim.t[lead] < 0:
                    prim = pneg(prim)
                out = P1
                inner = []
                for a, e in m:
                    if ATOMS[a].pos:
                        out = pmul(out, pmono([(a, e)]))
                    else:
                        inner.append((a, e))
                body = pmul(prim, pmono(inner)) if inner else prim
                if const_of(body) is not None:
                    return pmul(out, pscale(body, lc))
                return pscale(pmul(out, patom(atom("abs", intern(body), True))), lc)
        if f in ("min", "max"):
            items = []

            def flat(x):
                if x.op == "fn" and x.args[0] == f:
                    flat(x.args[1])
                    flat(x.args[2])
                else:
                    q = intern(self.poly(x))
                    if not any(q is y for y in items):
                        items.append(q)
            for x in args:
                flat(x)
            # fold order decided by sign of the difference
            keep = []
            for i, q in enumerate(items):
                drop = False
                for j, r in enumerate(items):
                    if i == j:
                        continue
                    d = psub(q, r)
                    s = psign(d)
                    if s is not None and ((f == "min" and s > 0) or (f == "max" and s < 0)):
                        drop = True
                if not drop:
                    keep.append(q)
            if len(keep) == 1:
                return keep[0]
            return patom(atom(f, frozenset(keep), all(is_pos(q) for q in keep)))
        if f == "arctan" and const_of(p) == 0:
            return P0
        return patom(atom(f, tuple(intern(q) for q in ps), f in ("arctan",) and is_pos(p)))

    def trig(self, f, p):
        sgn = 1
        if p.t:
            lead = min(p.t, key=mono_order)
            if p.t[lead] < 0:
                p = pneg(p)
                if f in ("sin", "sinh"):
                    sgn = -1
        if len(p.t) == 1 and f in ("sin", "cos"):
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "arctan":
                x = ATOMS[m[0][0]].data[0]
                den = ppow(padd(P1, pmul(x, x)), Fraction(-1, 2))
                r = den if f == "cos" else pmul(x, den)
                return pscale(r, sgn)
        c = const_of(p)
        if c is not None:
            v = getattr(math, f)(float(c))
            return pconst(Fraction(0) if abs(v) < 1e-15 else sgn * v)
        r = patom(atom(f, intern(p), f == "cosh" or (f == "sinh" and is_pos(p))))
        return pscale(r, sgn)

    # ---------------- conditions
    def ckey(self, c):
        """hashable canonical key of a boolean term"""
        k = c.memo.get("ckey")
        if k is not None:
            return k
        o, a = c.op, c.args
        if o == "bool":
            k = c
        elif o == "not":
            k = ("not", self.ckey(a[0]))
            if k[1] is TRUE:
                k = FALSE
            elif k[1] is FALSE:
                k = TRUE
            elif isinstance(k[1], tuple) and k[1][0] == "not":
                k = k[1][1]
        elif o in ("and", "or"):
            ks = set()

            def flat(x):
                if x.op == o:
                    flat(x.args[0])
                    flat(x.args[1])
                else:
                    ks.add(self.ckey(x))
            flat(c)
            absorb = FALSE if o == "and" else TRUE
            neutral = TRUE if o == "and" else FALSE
            ks.discard(neutral)
            if absorb in ks:
                k = absorb
            elif len(ks) == 1:
                k = next(iter(ks))
            elif not ks:
                k = neutral
            else:
                k = (o, frozenset(ks))
        elif o == "cmp":
            cc = self.canon_cmp(a[0], a[1], a[2])
            k = cc if isinstance(cc, Node) else self.cmpkey(cc)
        elif o in ("any", "all"):
            k = self.ckey(a[0])
        elif o == "sel":
            k = ("sel", self.ckey(a[0]), self.ckey(a[1]), self.ckey(a[2]))
        else:
            k = (o,) + tuple(self.argkey(x) for x in a)
        c.memo["ckey"] = k
        return k

    def cmpkey(self, cc):
        q, rel, t = cc
        # '>=' t  ==  not '<' t ;  '>' == not '<='
        if rel == ">=":
            return ("not", ("cmp", q, "<", tkey(t)))
        if rel == ">":
            return ("not", ("cmp", q, "<=", tkey(t)))
        return ("cmp", q, rel, tkey(t))

    def canon_cmp(self, op, x, y):
        """-> TRUE/FALSE node, or (interned poly q without constant, rel, threshold)"""
        for z in (x, y):
            if z is NAN:
                return FALSE if op != "!=" else TRUE
        if x.op in ("str", "ssym", "none") or y.op in ("str", "ssym", "none"):
            q = intern(patom(atom("pair", (self.argkey(x), self.argkey(y)))))
            return (q, op, Fraction(0))
        if x.op == "inf" or y.op == "inf":
            c = compare(op, x, y)
            if c.op == "bool":
                return c
        d = psub(self.poly(x), self.poly(y))
        return canon_ineq(d, op)


def tkey(t):
    return t if isinstance(t, Fraction) else float(f"{t:.9e}")


_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}


def psign(d):
    """+1/-1/0 if the sign is certain"""
    c = const_of(d)
    if c is not None:
        return (c > 0) - (c < 0)
    if is_pos(d):
        return 1
    if is_pos(pneg(d)):
        return -1
    return None


def clear_denoms(d):
    """multiply by positive atoms so that no positive atom has a negative exponent in any term"""
    for _ in range(6):
        mins = {}
        for m in d.t:
            for a, e in m:
                if isinstance(e, Fraction) and ATOMS[a].pos and a != 0:
                    mins.setdefault(a, []).append(e)
        mult = []
        for a, es in mins.items():
            lo = min(es) if len(es) == len(d.t) else min(min(es), Fraction(0))
            if lo != 0:
                mult.append((a, -lo))
        if not mult:
            return d
        d = pmul(d, pmono(mult))
    return d


def canon_ineq(d, op):
    s = psign(d)
    if s is not None:
        return boolean({"<": s < 0, "<=": s <= 0, "==": s == 0, ">": s > 0, ">=": s >= 0}[op])
    d = clear_denoms(d)
    s = psign(d)
    if s is not None:
        return boolean({"<": s < 0, "<=": s <= 0, "==": s == 0, ">": s > 0, ">=": s >= 0}[op])
    terms = sorted(d.t.items(), key=lambda kv: mono_order(kv[0]))
    if len(terms) == 1:
        (m, c), = terms
        if c < 0:
            op = _FLIP[op]
        # drop positive factors
        m = tuple((a, e) for a, e in m if not ATOMS[a].pos)
        if len(m) == 1 and isinstance(m[0][1], Fraction) and m[0][1].denominator == 1 and m[0][1] % 2 == 1:
            m = ((m[0][0], Fraction(1)),)
        return (intern(Poly({m: Fraction(1)})), op, Fraction(0))
    if len(terms) == 2 and all(mono_pos(m) for m, _ in terms) and (terms[0][1] > 0) != (terms[1][1] > 0):
        (m1, c1), (m2, c2) = terms
        inv = tuple((a, (-e if isinstance(e, Fraction) else enorm(pneg(e)))) for a, e in m2)
        m = _mono_mul(m1, inv)
        # m1*c1 + m2*c2 op 0,  c1>0: m1/m2 op -c2/c1
        if c1 < 0:
            op = _FLIP[op]
        t = -c2 / c1
        # orientation / exponent normalisation
        e0 = next((e for a, e in m if isinstance(e, Fraction)), None)
        if e0 is not None:
            f = Fraction(1) / e0
            m = tuple((a, emul(e, f)) for a, e in m)
            t = cpow(t, f)
            if f < 0:
                op = _FLIP[op]
        return (intern(Poly({m: Fraction(1)})), op, t)
    # one-sided form q op t, with q's leading coefficient 1 and no constant
    nonconst = [(m, c) for m, c in terms if m != ()]
    m0, c0 = nonconst[0]
    if c0 < 0:
        op = _FLIP[op]
    q = Poly({m: c / c0 for m, c in nonconst})
    t = -(d.t.get((), Fraction(0))) / c0
    return (intern(q), op, t)


NORM = Norm()
poly = NORM.poly
ckey = NORM.ckey


# ------------------------------------------------------------------ equality of polynomials
def peq(a, b):
    if a is b:
        return True
    if len(a.t) == len(b.t) and all(m in b.t and cclose(c, b.t[m]) for m, c in a.t.items()):
        return True
    if not _has_sum(a) and not _has_sum(b):
        return _close(a, b)
    try:
        for _ in range(8):
            sums = {}
            for p in (a, b):
                for m in p.t:
                    d = dict(m)
                    for ai, e in d.items():
                        if ATOMS[ai].kind == "sum" and isinstance(e, Fraction):
                            sums.setdefault(ai, Fraction(0))
            if not sums:
                break
            changed = False
            for ai in list(sums):
                exps = [dict(m).get(ai, Fraction(0)) for p in (a, b) for m in p.t]
                exps = [e for e in exps if isinstance(e, Fraction)]
                lo = min(exps)
                fl = lo.numerator // lo.denominator
                if fl < 0 or any(e >= 1 for e in exps):
                    a, b = _shift(a, ai, -fl if fl < 0 else 0), _shift(b, ai, -fl if fl < 0 else 0)
                    changed = True
                    break
            if not changed:
                break
    except TooBig:
        return False
    return _close(a, b)


def _has_sum(p):
    return any(ATOMS[ai].kind == "sum" for m in p.t for ai, _ in m)


def _shift(p, ai, k):
    """multiply by sumatom**k and expand integer parts"""
    out = P0
    base = ATOMS[ai].data
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(ai, Fraction(0))
        if not isinstance(e, Fraction):
            d[ai] = e
            r = Poly({tuple(sorted(d.items(), key=lambda x: x[0])): c})
            for _ in range(k):
                r = pmul(r, base)
            out = padd(out, r)
            continue
        e = e + k
        n = e.numerator // e.denominator
        f = e - n
        if n < 0:
            d[ai] = e
            n = 0
        elif f != 0:
            d[ai] = f
        r = Poly({tuple(sorted(d.items(), key=lambda x: x[0])): c})
        for _ in range(n):
            r = pmul(r, base)
        out = padd(out, r)
    return out


def _close(a, b):
    keys = set(a.t) | set(b.t)
    if not keys:
        return True
    scale = max([abs(float(c)) for c in list(a.t.values()) + list(b.t.values())] or [0.0])
    for m in keys:
        x, y = a.t.get(m, Fraction(0)), b.t.get(m, Fraction(0))
        if x == y:
            continue
        if abs(float(x) - float(y)) > RTOL * max(abs(float(x)), abs(float(y))) and \
                not (isinstance(x - y, float) and abs(float(x - y)) <= 1e-13 * scale):
            return False
    return True


# ------------------------------------------------------------------ text
def ptxt(p, limit=12):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: mono_order(kv[0]))[:limit]:
        fs = []
        if c != 1 or not m:
            fs.append(fnum(c))
        for a, e in m:
            t = atxt(ATOMS[a])
            if e == 1:
                fs.append(t)
            else:
                fs.append(f"{t}^({fnum(e) if isinstance(e, Fraction) else ptxt(e)})")
        out.append("*".join(fs))
    if len(p.t) > limit:
        out.append("...")
    return " + ".join(out)


def atxt(a):
    if a.txt:
        return a.txt
    if a.kind == "sum":
        return f"({ptxt(a.data)})"
    d = a.data
    if isinstance(d, Poly):
        return f"{a.kind}({ptxt(d)})"
    if isinstance(d, tuple):
        return f"{a.kind}({', '.join(ptxt(x) if isinstance(x, Poly) else ktxt(x) for x in d)})"
    if isinstance(d, frozenset):
        return f"{a.kind}({', '.join(sorted(ptxt(x) for x in d))})"
    if isinstance(d, Node):
        return f"{a.kind}[{show(d, 5)}]"
    return f"{a.kind}({d})"


def ktxt(k):
    if isinstance(k, Node):
        return show(k, 4)
    if isinstance(k, Poly):
        return ptxt(k, 6)
    if isinstance(k, (Fraction, float)):
        return fnum(k)
    if isinstance(k, tuple):
        if k and k[0] == "cmp" and len(k) == 4:
            return f"[{ktxt(k[1])} {k[2]} {ktxt(k[3])}]"
        if k and k[0] == "not":
            return "!" + ktxt(k[1])
        return "(" + " ".join(ktxt(x) for x in k) + ")"
    if isinstance(k, frozenset):
        return "{" + ", ".join(sorted(ktxt(x) for x in k)) + "}"
    return str(k)


# ------------------------------------------------------------------ facts (path assumptions)
class Facts:
    """conjunction of decided condition atoms"""

    def __init__(self, iv=None, bools=None, raw=None):
        self.iv = dict(iv or {})  # interned poly -> (lo, lo_strict, hi, hi_strict)
        self.bools = dict(bools or {})
        self.raw = list(raw or [])  # [(poly d, strict)] meaning d < 0 / d <= 0

    def copy(self):
        return Facts(self.iv, self.bools, self.raw)

    def decide_cmp(self, cc):
        if isinstance(cc, Node):
            return cc
        q, rel, t = cc
        iv = self.iv.get(id(q))
        if iv is None:
            return None
        lo, ls, hi, hs = iv

        def lt():  # q < t certain?
            return hi is not None and (hi < t and not cclose_t(hi, t) or (cclose_t(hi, t) and hs))

        def le():
            return hi is not None and (hi < t or cclose_t(hi, t))

        def gt():
            return lo is not None and (lo > t and not cclose_t(lo, t) or (cclose_t(lo, t) and ls))

        def ge():
            return lo is not None and (lo > t or cclose_t(lo, t))
        if rel == "<":
            return TRUE if lt() else FALSE if ge() else None
        if rel == "<=":
            return TRUE if le() else FALSE if gt() else None
        if rel == ">":
            return TRUE if gt() else FALSE if le() else None
        if rel == ">=":
            return TRUE if ge() else FALSE if lt() else None
        if rel == "==":
            if lt() or gt():
                return FALSE
            if ge() and le():
                return TRUE
            return None
        return None

    def add_cmp(self, cc, val, d=None):
        q, rel, t = cc
        if not val:
            rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!="}[rel]
        lo, ls, hi, hs = self.iv.get(id(q), (None, False, None, False))
        if rel in ("<", "<=", "=="):
            if hi is None or t < hi or (cclose_t(t, hi) and rel == "<"):
                hi, hs = t, rel == "<"
        if rel in (">", ">=", "=="):
            if lo is None or t > lo or (cclose_t(t, lo) and rel == ">"):
                lo, ls = t, rel == ">"
        self.iv[id(q)] = (lo, ls, hi, hs)
        _KEEP[id(q)] = q
        dq = psub(q, pconst(t))
        if rel in ("<", "<="):
            self.raw.append((dq, rel == "<"))
        elif rel in (">", ">="):
            self.raw.append((pneg(dq), rel == ">"))
        elif rel == "==":
            self.raw.append((dq, False))
            self.raw.append((pneg(dq), False))

    def feasible(self):
        for lo, ls, hi, hs in self.iv.values():
            if lo is not None and hi is not None:
                if lo > hi and not cclose_t(lo, hi):
                    return False
                if cclose_t(lo, hi) and (ls or hs):
                    return False
        return fm_feasible(self.raw)

    def equalities(self):
        out = []
        for k, (lo, ls, hi, hs) in self.iv.items():
            if lo is not None and hi is not None and cclose_t(lo, hi):
                out.append((_KEEP[k], lo))
        return out

    def text(self):
        parts = []
        for k, (lo, ls, hi, hs) in self.iv.items():
            q = ptxt(_KEEP[k], 6)
            if lo is not None:
                parts.append(f"{q} {'>' if ls else '>='} {fnum(lo)}")
            if hi is not None:
                parts.append(f"{q} {'<' if hs else '<='} {fnum(hi)}")
        for k, v in self.bools.items():
            parts.append(("" if v else "not ") + ktxt(k))
        return " and ".join(parts) or "always"


_KEEP = {}


def cclose_t(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)))


def fm_feasible(raw, limit=400):
    """Fourier-Motzkin over monomials as independent variables (positive monomials are > 0)"""
    cons = []
    mons = set()
    for d, strict in raw:
        row = {m: float(c) for m, c in clear_denoms(d).t.items()}
        cons.append((row, strict))
        row2 = {m: float(c) for m, c in d.t.items()}
        if row2 != row:
            cons.append((row2, strict))
        mons |= set(row) | set(row2)
    for m in mons:
        if m != () and mono_pos(m):
            cons.append(({m: -1.0}, True))
    mons.discard(())
    for v in sorted(mons, key=lambda m: sum(1 for r, _ in cons if m in r)):
        pos = [(r, s) for r, s in cons if r.get(v, 0) > 0]
        ng = [(r, s) for r, s in cons if r.get(v, 0) < 0]
        rest = [(r, s) for r, s in cons if r.get(v, 0) == 0]
        if len(pos) * len(ng) + len(rest) > limit:
            return True
        for r1, s1 in pos:
            for r2, s2 in ng:
                k1, k2 = 1 / r1[v], -1 / r2[v]
                row = {}
                for m in set(r1) | set(r2):
                    c = r1.get(m, 0) * k1 + r2.get(m, 0) * k2
                    if m != v and abs(c) > 1e-12:
                        row[m] = c
                rest.append((row, s1 or s2))
        cons = rest
    for r, s in cons:
        c = r.get((), 0.0)
        if c > 1e-12 or (s and abs(c) <= 1e-12) and s:
            if c > 1e-12 or s:
                return False
    return True


# ------------------------------------------------------------------ restriction of terms under facts
def restrict(n, facts, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        o = x.op
        if not children(x):
            if is_boolish(x) and o != "bool":
                v = facts.bools.get(ckey(x))
                r = boolean(v) if v is not None else x
            else:
                r = x
        elif o == "sel":
            c = go(x.args[0])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                r = merge(c, go(x.args[1]), go(x.args[2]))
        elif o in ("and", "or"):
            a = go(x.args[0])
            if o == "and" and a is FALSE or o == "or" and a is TRUE:
                r = a
            else:
                b = go(x.args[1])
                r = and_(a, b) if o == "and" else or_(a, b)
        elif o == "fix":
            r = x
        else:
            ch = False
            args = []
            for a in x.args:
                if isinstance(a, Node):
                    b = go(a)
                    ch = ch or b is not a
                    args.append(b)
                else:
                    args.append(a)
            r = rebuild(x, args) if ch else x
            if r.op == "cmp" and pure(r):
                cc = NORM.canon_cmp(*r.args)
                v = facts.decide_cmp(cc)
                if v is not None:
                    r = v
            elif r.op == "fn" and r.args[0] in ("min", "max") and len(r.args) == 3 and pure(r):
                v = facts.decide_cmp(canon_ineq(psub(poly(r.args[1]), poly(r.args[2])), "<="))
                if v is not None:
                    r = r.args[1] if (v is TRUE) == (r.args[0] == "min") else r.args[2]
            elif r.op == "fn" and r.args[0] == "abs" and pure(r):
                v = facts.decide_cmp(canon_ineq(poly(r.args[1]), "<="))
                if v is not None:
                    r = neg(r.args[1]) if v is TRUE else r.args[1]
            elif is_boolish(r) and r.op in ("streq", "truth", "isnan", "isinf"):
                v = facts.bools.get(ckey(r))
                if v is not None:
                    r = boolean(v)
                elif r.op == "streq":
                    # x == 'a' is false once x == 'b' is known
                    for k, vv in facts.bools.items():
                        if vv and isinstance(k, tuple) and k[0] == "streq" and k[1] is NORM.argkey(r.args[0]):
                            r = FALSE
                            break
        memo[x.id] = r
        return r
    return go(n)


def pure(n):
    """no piecewise structure inside"""
    m = n.memo.get("pure")
    if m is None:
        m = True
        for x in children(n):
            if not pure(x):
                m = False
                break
            if x.op in ("sel",) or (x.op == "fn" and x.args[0] in ("min", "max", "abs")) or (
                    is_boolish(x) and x.op != "bool" and n.op not in ("and", "or", "not")):
                m = False
                break
        if n.op == "fix":
            m = True
        n.memo["pure"] = m
    return m


def find_split(n, seen=None):
    """innermost undecided condition: returns ('cmp', cc) or ('bool', key)"""
    seen = set() if seen is None else seen

    def go(x):
        if x.id in seen:
            return None
        seen.add(x.id)
        if x.op == "fix":
            return None
        for c in children(x):
            r = go(c)
            if r is not None:
                return r
        if x.op == "cmp":
            cc = NORM.canon_cmp(*x.args)
            if not isinstance(cc, Node):
                return ("cmp", cc)
        elif x.op == "fn" and x.args[0] in ("min", "max") and len(x.args) == 3:
            cc = canon_ineq(psub(poly(x.args[1]), poly(x.args[2])), "<=")
            if not isinstance(cc, Node):
                return ("cmp2", cc)
        elif x.op == "fn" and x.args[0] == "abs":
            cc = canon_ineq(poly(x.args[1]), "<=")
            if not isinstance(cc, Node):
                return ("cmp2", cc)
        elif x.op in ("streq", "truth", "bsym", "isnan", "isinf"):
            return ("bool", ckey(x))
        return None
    return go(n)


class Mismatch:
    def __init__(self, facts, a, b):
        self.facts, self.a, self.b = facts, a, b

    def text(self):
        return f"when {self.facts.text()[:600]}: {vtxt(self.a)[:500]}  versus  {vtxt(self.b)[:500]}"


def vtxt(n):
    if isinstance(n, Node):
        if is_boolish(n) or n.op in ("nan", "none", "str", "inf"):
            return show(n, 8)
        try:
            return ptxt(poly(n), 10)
        except Exception:
            return show(n, 6)
    return str(n)


class Budget(Exception):
    pass


class Equiv:
    """equivalence of two terms; result: True, Mismatch, or None (undecided)"""

    def __init__(self, budget=3000):
        self.n = budget
        self.leaves = 0

    def run(self, a, b, facts=None):
        try:
            return self.go(a, b, facts or Facts())
        except (Budget, TooBig, OverflowError):
            return None

    def go(self, a, b, facts):
        self.n -= 1
        if self.n < 0:
            raise Budget
        if a is b:
            self.leaves += 1
            return True
        if not is_special(a) and not is_special(b):
            if is_boolish(a) and is_boolish(b):
                if ckey(a) == ckey(b):
                    self.leaves += 1
                    return True
            elif not is_boolish(a) and not is_boolish(b):
                if peq(poly(a), poly(b)):
                    self.leaves += 1
                    return True
        s = find_split(a) or find_split(b)
        if s is None:
            return self.leaf(a, b, facts)
        und = False
        kind, cc = s
        if kind in ("cmp", "cmp2"):
            # three-way split keeps boundary points separate
            q, rel, t = cc
            cases = [(q, "<", t), (q, ">", t), (q, "==", t)] if rel in ("<", "<=", ">", ">=", "==") else []
            if kind == "cmp2":  # min/max/abs are continuous: the boundary belongs to both sides
                cases = [(q, "<=", t), (q, ">", t)] if rel in ("<=", ">") else [(q, ">=", t), (q, "<", t)]
            for c3 in cases:
                f2 = facts.copy()
                f2.add_cmp(c3, True)
                if not f2.feasible():
                    continue
                memo = {}
                r = self.go(restrict(a, f2, memo), restrict(b, f2, memo), f2)
                if isinstance(r, Mismatch):
                    return r
                und = und or r is None
        else:
            for v in (True, False):
                f2 = facts.copy()
                f2.bools[cc] = v
                memo = {}
                r = self.go(restrict(a, f2, memo), restrict(b, f2, memo), f2)
                if isinstance(r, Mismatch):
                    return r
                und = und or r is None
        return None if und else True

    def leaf(self, a, b, facts):
        self.leaves += 1
        if has_opaque(a) or has_opaque(b):
            return None
        eqs = facts.equalities()
        sp = is_special(a) or is_special(b)
        if sp or is_boolish(a) or is_boolish(b):
            if is_boolish(a) and is_boolish(b) and not (a.op == "bool" and b.op == "bool"):
                return None
            if not eqs or sp:
                return Mismatch(facts, a, b)
        if eqs:
            # boundary region: the difference is a multiple of the equality
            if not (is_boolish(a) or is_boolish(b)):
                try:
                    d = psub(poly(a), poly(b))
                    if d.t:
                        _, _, dp = content(clear_denoms(d))
                        for q, t in eqs:
                            _, _, qp = content(clear_denoms(psub(q, pconst(t))))
                            if peq(dp, qp) or peq(dp, pneg(qp)):
                                return True
                except (TooBig, ValueError):
                    pass
            # boundary region: substitute the equality if it can be solved
            for q, t in eqs:
                s = solve_eq(q, t)
                if s is None:
                    continue
                name, val = s
                m = {mk("sym", name).id: val}
                a2, b2 = subst(a, m), subst(b, m)
                if has_nonfinite(a2) or has_nonfinite(b2):
                    return None
                try:
                    if is_boolish(a2) or is_boolish(b2):
                        return None
                    if find_split(a2) or find_split(b2):
                        return None
                    if peq(poly(a2), poly(b2)):
                        return True
                except (ValueError, ZeroDivisionError):
                    return None
                return Mismatch(facts, a2, b2) if len(eqs) == 1 else None
            return None
        return Mismatch(facts, a, b)


def has_nonfinite(n):
    return any(x.op in ("inf", "nan") for x in walk(n))


def is_special(n):
    return n.op in ("nan", "none", "str", "inf", "ssym", "tup", "bot", "fnref", "fstr", "fmt")


def has_opaque(n):
    m = n.memo.get("hasopq")
    if m is None:
        m = any(x.op in ("opq", "loopv", "mu") for x in walk(n))
        n.memo["hasopq"] = m
    return m


def solve_eq(q, t):
    """solve q == t for one parameter: -> (name, node)"""
    def tonode(m, c):
        r = num(c) if isinstance(c, Fraction) else mk("flt", c)
        r = flt(c)
        for a, e in m:
            if ATOMS[a].kind != "sym" or not isinstance(e, Fraction):
                return None
            r = arith("mul", r, arith("pow", mk("sym", ATOMS[a].data), num(e)))
        return r
    if len(q.t) == 1:
        (m, c), = q.t.items()
        for i, (a, e) in enumerate(m):
            if ATOMS[a].kind == "sym" and isinstance(e, Fraction):
                rest = tonode(m[:i] + m[i + 1:], c)
                if rest is None:
                    return None
                if t == 0:
                    return (ATOMS[a].data, ZERO) if e > 0 and len(m) == 1 else None
                return ATOMS[a].data, arith("pow", arith("div", flt(t), rest), num(1 / e))
        return None
    for m, c in q.t.items():
        if len(m) == 1 and ATOMS[m[0][0]].kind == "sym" and m[0][1] == 1:
            a = m[0][0]
            others = [(m2, c2) for m2, c2 in q.t.items() if m2 != m]
            if any(a == x for m2, _ in others for x, _ in m2):
                continue
            r = flt(t)
            ok = True
            for m2, c2 in others:
                tn = tonode(m2, c2)
                if tn is None:
                    ok = False
                    break
                r = arith("sub", r, tn)
            if ok:
                return ATOMS[a].data, arith("div", r, flt(c))
    return None


def flt(c):
    if isinstance(c, Fraction):
        return num(c)
    return mk("num", Fraction(c))


def fix_equiv(r1, r2):
    """same fixed-point equation x = F(x) (up to a non-zero factor of the residual)"""
    if r1 is r2:
        return True
    bv = mk("bv", r1.args[0])
    e = Equiv(800)
    return e.run(r1.args[1], r2.args[1]) is True


def equivalent(a, b, budget=3000):
    """values of any shape"""
    if isinstance(a, (Tup,)) and isinstance(b, (Tup,)):
        if len(a.items) != len(b.items):
            return Mismatch(Facts(), to_node(a), to_node(b))
        und = False
        for x, y in zip(a.items, b.items):
            r = equivalent(x, y, budget)
            if isinstance(r, Mismatch):
                return r
            und = und or r is None
        return None if und else True
    if isinstance(a, Choice) or isinstance(b, Choice):
        return None
    a, b = to_node(a), to_node(b)
    return Equiv(budget).run(a, b)
