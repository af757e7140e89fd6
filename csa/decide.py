"""Decide equality of two analysed values: proved / refuted (with witness) / undecided."""
import time

from .graph import (Node, sel, mk, and_, or_, not_, TRUE, FALSE, num, ONE, ZERO, children, walk, is_boolish)
from .interp import Tup, Dct, Choice, Rec, to_node, BOT, subst, rebuild
from . import nf, identity
from .absdom import Ctx


class Verdict:
    def __init__(self, kind, detail=None, by=""):
        self.kind, self.detail, self.by = kind, detail, by   # 'proved' | 'refuted' | 'undecided'

    def text(self):
        return self.detail.text() if hasattr(self.detail, "text") else str(self.detail)


def shape(v):
    """resolve Choice of containers to a container of sel"""
    if isinstance(v, Choice):
        a, b = shape(v.a), shape(v.b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([shape(Choice(v.cond, x, y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, Node) and isinstance(b, Node):
            return sel(v.cond, a, b)
        return Choice(v.cond, a, b)
    return v


def pairs(a, b):
    """-> list of (label, node, node, cond) or a text when the shapes differ"""
    a, b = shape(a), shape(b)
    if isinstance(a, Rec):
        a = Dct(a.fields)
    if isinstance(b, Rec):
        b = Dct(b.fields)
    if isinstance(a, Choice) and isinstance(b, Choice):
        if a.cond is b.cond or nf.ckey(a.cond) == nf.ckey(b.cond):
            x, y = pairs(a.a, b.a), pairs(a.b, b.b)
        elif nf.ckey(not_(a.cond)) == nf.ckey(b.cond):
            x, y = pairs(a.a, b.b), pairs(a.b, b.a)
        else:
            return None
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return x if isinstance(x, str) else y
        return x + y
    if isinstance(a, Choice) or isinstance(b, Choice):
        return None
    if isinstance(a, Tup) and a.items and isinstance(b, Node) and b.op == "raised":
        b = Tup([b] * len(a.items))
    if isinstance(b, Tup) and b.items and isinstance(a, Node) and a.op == "raised":
        a = Tup([a] * len(b.items))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return f"{len(a.items)} values returned, {len(b.items)} expected"
        out = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            p = pairs(x, y)
            if not isinstance(p, list):
                return p
            out += [(f"[{i}]" + l, u, v) for l, u, v in p]
        return out
    if isinstance(a, Dct) and isinstance(b, Dct):
        miss = [k for k in b.d if k not in a.d]
        if miss:
            return f"result entries missing: {miss}"
        out = []
        for k in b.d:
            p = pairs(a.d[k], b.d[k])
            if not isinstance(p, list):
                return p
            out += [(f"[{k}]" + l, u, v) for l, u, v in p]
        return out
    if isinstance(a, (Tup, Dct)) or isinstance(b, (Tup, Dct)):
        return None
    return [("", to_node(a), to_node(b))]


SIMP = {}


def simp(n):
    """a case x == c whose value is what the other case gives at x = c is no case"""
    if n.id in SIMP:
        return SIMP[n.id]
    r = n
    if n.op == "fix" or not n.args:
        pass
    else:
        args = [simp(x) if isinstance(x, Node) else x for x in n.args]
        if any(x is not y for x, y in zip(args, n.args)):
            r = rebuild(n, args)
        if r.op == "sel" and r.args[0].op == "cmp" and r.args[0].args[0] == "==":
            x, c = r.args[0].args[1:]
            if x.op == "num":
                x, c = c, x
            if x.op == "sym" and c.op == "num" and subst(r.args[2], {x.id: c}) is r.args[1]:
                r = r.args[2]
    SIMP[n.id] = r
    return r


class Sweep:
    """Cut-point equivalence: sub-terms of the two graphs that agree on sample points are *proved* equal bottom-up
    and replaced by a common fresh atom, so that the proof of the whole never unfolds them again."""

    def __init__(self, budget=120, npoints=8, deadline=None):
        self.budget, self.np = budget, npoints
        self.cut = {}      # node id -> atom
        self.red = {}      # node id -> reduced node, as long as no cut is added
        self.same = {}     # node id -> term both sides share, kept visible
        self.proofs = 0
        self.n = 0
        self.deadline = deadline
        self.bounds = Ctx(lambda s: (0.0, float("inf")) if nf.is_pos_name(s) else (float("-inf"), float("inf")))

    def reduce(self, n):
        if n.id in self.cut:
            return self.cut[n.id]
        r = self.same.get(n.id) or self.red.get(n.id)
        if r is not None:
            return r
        if n.op == "fix" or not n.args:
            r = n
        else:
            ch, args = False, []
            for x in n.args:
                if isinstance(x, Node):
                    y = self.reduce(x)
                    ch = ch or y is not x
                    args.append(y)
                else:
                    args.append(x)
            r = rebuild(n, args) if ch else n
        self.red[n.id] = r
        return r

    def order(self, n):
        out, seen = [], set()
        st = [(n, False)]
        while st:
            x, done = st.pop()
            if done:
                out.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append((x, True))
            if x.op != "fix":
                st.extend((c, False) for c in children(x))
        return out

    def prove(self, a, b):
        if a is b:
            return True
        smp = identity.Sampler([a, b], 5)
        oa, ob = self.order(a), self.order(b)
        ids = {x.id: x for x in oa + ob if self.interesting(x)}
        sigs = {i: [] for i in ids}
        tries = 0
        while tries < self.np * 4 and len(next(iter(sigs.values()), [])) < self.np:
            tries += 1
            env = smp.point()
            ev = identity.Eval(env)
            try:
                ev(a)
            except identity.Dom:
                if tries < self.np * 3:
                    continue
            for i, x in ids.items():
                try:
                    v = ev(x)
                except (identity.Dom, RecursionError):
                    v = None
                sigs[i].append(v)
        ina, inb = {x.id for x in oa}, {x.id for x in ob}
        byrep = []
        for x in oa:
            if x.id not in ids or x.id in inb:
                continue
            sx = sigs[x.id]
            if not any(isinstance(v, float) for v in sx):
                continue
            cand = [y for y in ob if y.id in ids and y.id not in ina and self.match(sx, sigs[y.id])]
            for y in cand[:4]:
                if self.deadline and time.time() > self.deadline:
                    return None
                self.join(x, y)
        ra, rb = self.reduce(a), self.reduce(b)
        if ra is rb:
            return True
        return nf.Equiv(self.budget * 8).run(ra, rb)

    def interesting(self, x):
        return x.op in ("sel", "fix") or x.op == "fn" and x.args[0] in ("min", "max", "abs") and not is_boolish(x)

    @staticmethod
    def match(s, t):
        seen = 0
        for u, v in zip(s, t):
            if u is None or v is None:
                if (u is None) != (v is None):
                    return False
                continue
            if identity.differ(u, v, 1e-7):
                return False
            seen += 1
        return seen >= 2

    def join(self, x, y):
        if y.id in self.cut and x.id in self.cut:
            return self.cut[x.id] is self.cut[y.id]
        rx, ry = self.reduce(x), self.reduce(y)
        if rx is not ry:
            if x.op == "fix" and y.op == "fix" and len(x.args) == 2 and len(y.args) == 2 and isinstance(x.args[0], int):
                bx = subst(x.args[1], {mk("bv", x.args[0]).id: mk("sym", "bvcut")})
                by = subst(y.args[1], {mk("bv", y.args[0]).id: mk("sym", "bvcut")})
                s = Sweep(self.budget, self.np, self.deadline)
                ok = s.prove(bx, by) is True
            else:
                try:
                    ok = nf.Equiv(self.budget).run(rx, ry) is True
                except RecursionError:
                    ok = False
            self.proofs += 1
            if not ok:
                return False
        self.red = {}
        if rx.op in ("num", "sym"):
            self.cut[x.id] = self.cut[y.id] = rx
            return True
        at = self.cut.get(y.id)
        if at is None:
            self.n += 1
            pos = False
            try:
                if not is_boolish(ry) and not nf.is_special(ry) and ry.op != "raised":
                    pos = self.bounds(y)[0] > 0 or nf.is_pos(nf.poly(ry))
            except Exception:
                pos = False
            if any(z.op in ("nan", "raised", "none", "str") for z in walk(ry)) or is_boolish(ry):
                # keep special values visible
                self.same[x.id] = self.same[y.id] = ry
                return True
            at = mk("sym", ("cutpos%d" if pos else "z_cut%d") % ry.id)
        self.cut[x.id] = self.cut[y.id] = at
        return True


def sweep(a, b, seconds=40):
    try:
        return Sweep(deadline=time.time() + seconds).prove(a, b) is True
    except (nf.TooBig, RecursionError, OverflowError):
        return False


HURRY = None      # from this time on only cheap attempts, so that every obligation is at least tested for counter-examples


MEMO = {}


def equal_nodes(a, b, budget=400, points=150, prove=True, seconds=40, span=4):
    if a is b:
        return Verdict("proved", by="identical")
    k = a.id, b.id, budget, points, prove, seconds, span
    if k not in MEMO:
        MEMO[k] = _equal_nodes(a, b, budget, points, prove, seconds, span)
    return MEMO[k]


def _equal_nodes(a, b, budget, points, prove, seconds, span):
    if HURRY and time.time() > HURRY:
        prove = False
    w = identity.refute(a, b, n=min(points, 60))
    if w is not None:
        return Verdict("refuted", w)
    r = None
    full = a, b
    a, b = simp(a), simp(b)
    if a is b:
        return Verdict("proved", by="normal form")
    if prove:
        try:
            r = nf.Equiv(40).run(a, b)
            if r is not True and sweep(a, b, seconds):
                return Verdict("proved", by="cut points")
            if r is None and budget > 40:
                r = nf.Equiv(budget).run(a, b)
        except RecursionError:
            r = None
    if r is True:
        return Verdict("proved", by="normal form")
    a, b = full
    w = identity.refute(a, b, n=points * (6 if isinstance(r, nf.Mismatch) else 1), seed=2)
    if w is not None:
        return Verdict("refuted", w)
    if isinstance(r, nf.Mismatch):
        w = boundary(r, a, b)
        if w is not None:
            return Verdict("refuted", w)
    w = identity.probe(a, b, span=span)
    if w is not None:
        return Verdict("refuted", w)
    return Verdict("undecided", r) if isinstance(r, nf.Mismatch) else Verdict("undecided")


def boundary(mm, a, b, n=200):
    """a mismatch on the boundary of a case distinction: evaluate both terms on that boundary"""
    eqs = mm.facts.equalities()
    if not eqs:
        return None
    s = identity.Sampler([a, b], 3)
    for _ in range(n):
        env = s.point()
        ok = True
        for q, t in eqs:
            sol = nf.solve_eq(q, t)
            if sol is None:
                ok = False
                break
            name, val = sol
            try:
                env[("sym", name)] = identity._num(identity.Eval(env)(val))
            except identity.Dom:
                ok = False
        if not ok:
            continue
        try:
            ev, ew = identity.Eval(env), identity.Eval(env)
            x, y = ev(a), ew(b)
            if ev.used != ew.used:
                continue
        except identity.Dom:
            continue
        if identity.differ(x, y, 1e-6):
            if (ev.fixes or ew.fixes) and not (identity.settled(a, env, x) and identity.settled(b, env, y)):
                continue
            return identity.Witness(env, x, y)
    return None


def equal_values(a, b, **kw):
    if isinstance(a, Node) and isinstance(b, Node):
        return equal_nodes(a, b, **kw)
    p = pairs(a, b)
    if p is None:
        return Verdict("undecided", "shapes not comparable")
    if isinstance(p, str):
        return Verdict("refuted", p)
    und = None
    for lab, x, y in p:
        v = equal_nodes(x, y, **kw)
        if v.kind == "refuted":
            v.label = lab
            return v
        if v.kind == "undecided":
            und = v
    return und or Verdict("proved", by="normal form")
