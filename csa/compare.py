"""Load repo + reference programs, enumerate call profiles of a public function, analyse it under each profile."""
import ast
import os

from .frontend import Program, repo_program, PKG, AnalysisBroken
from .graph import (Node, mk, num, sym, string, NAN, TRUE, FALSE, NONE, and_, or_, not_, sel, boolean, syms, walk)
from .interp import Interp, Config, Tup, Dct, Fn, Choice, Rec, to_node, BOT, PathDead
from . import nf

REFROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")
CHECK = ".functions.core_utility.check_variable_validity_range"
FN = PKG + ".functions."

_cache = {}


def ref_program():
    if "ref" not in _cache:
        _cache["ref"] = Program(REFROOT, "ref")
    return _cache["ref"]


def rec_check(interp, fn, args, kwargs, site):
    env, err = interp.bind(fn, args, kwargs, site)
    if err:
        interp.emit("badcall", (fn.qual, err), site)
        raise PathDead
    order = [x.arg for x in fn.node.args.args][:5]
    vals = tuple(env.get(k) for k in order)
    interp.emit("check", vals, site)
    interp.functions_seen.add(fn.qual)
    return mk("verdict", *[to_node(v) for v in vals[2:5]])


class Side:
    """one program with a check-recording interpreter"""

    def __init__(self, prog, pkg, record=True, config=None):
        self.prog, self.pkg = prog, pkg
        self.interp = Interp(prog, config)
        if record:
            self.interp.intercept_name[CHECK.rpartition(".")[2]] = rec_check
        self.sigs = {}
        self.runs = {}

    def qual(self, short):
        return f"{self.pkg}.functions.{short}"

    def fn(self, short):
        """the function a user gets under this name (also when it is imported from elsewhere), or None"""
        mod, _, f = self.qual(short).rpartition(".")
        m = self.prog.modules.get(mod)
        if m is None:
            return None
        v = self.interp.module_env(m).get(f)
        if isinstance(v, Fn):
            return v
        return Fn(m, m.functions[f]) if f in m.functions else None

    def has(self, short):
        return self.fn(short) is not None

    def has_module(self, short):
        return f"{self.pkg}.functions.{short}" in self.prog.modules

    def fnode(self, short):
        return self.fn(short).node

    def functions(self, modshort, private=False):
        m = self.prog.modules[f"{self.pkg}.functions.{modshort}"]
        return [f for f in m.functions if (private or not f.startswith("_")) and not f.startswith("known_wrong__")]

    def signature(self, short):
        """[(param, default value or None if required)]"""
        if short in self.sigs:
            return self.sigs[short]
        fn = self.fn(short)
        self.interp.bind(fn, [], {}, None)
        a = fn.node.args
        out = [(x.arg, (fn.defaults or {}).get(x.arg)) for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.sigs[short] = out
        return out

    def run(self, short, args):
        key = (short, tuple(sorted((k, v.id if isinstance(v, Node) else id(v)) for k, v in args.items())))
        r = self.runs.get(key)
        if r is None:
            r = self.runs[key] = self.interp.run(self.qual(short), args)
        return r


def repo_side():
    if "rs" not in _cache:
        _cache["rs"] = Side(repo_program(), PKG)
    return _cache["rs"]


def ref_side():
    if "fs" not in _cache:
        _cache["fs"] = Side(ref_program(), "ref")
    return _cache["fs"]


# ------------------------------------------------------------------ profiles
def param_value(name, default):
    """symbolic stand-in for a supplied argument"""
    if default is TRUE or default is FALSE:
        return mk("bsym", name)
    if isinstance(default, Node) and default.op == "str":
        return mk("ssym", name)
    return sym(name)


def classify(default):
    if default is None:
        return "req"
    if default is NAN or default is NONE:
        return "opt"
    if default is TRUE or default is FALSE:
        return "flag"
    if isinstance(default, Node) and default.op == "str":
        return "str"
    return "coef"


class Profile:
    def __init__(self, label, args):
        self.label, self.args = label, args


def profiles(sig, strings=None, limit=400, extra_subsets=()):
    """call shapes: which optional inputs are given, coefficients symbolic / at their defaults"""
    req = {p: param_value(p, d) for p, d in sig if classify(d) == "req"}
    for p in req:
        if p in (strings or {}):
            req[p] = mk("ssym", p)
    opt = [p for p, d in sig if classify(d) == "opt"]
    coef = {p: sym(p) for p, d in sig if classify(d) == "coef"}
    flags = {p: param_value(p, d) for p, d in sig if classify(d) in ("flag", "str")}
    subs = []

    def add(s):
        s = frozenset(s)
        if s not in seen:
            seen.add(s)
            subs.append(s)
    seen = set()
    if len(opt) <= 5:
        for bits in range(2 ** len(opt)):
            add(o for i, o in enumerate(opt) if bits >> i & 1)
    else:
        add(opt)
        add(())
        for o in opt:
            add(set(opt) - {o})
            add({o})
        for i, o in enumerate(opt):
            for q in opt[i + 1:]:
                add({o, q})
                add(set(opt) - {o, q})
        if len(opt) <= 12:
            for i, o in enumerate(opt):
                for j in range(i + 1, len(opt)):
                    for q in opt[j + 1:]:
                        add({o, opt[j], q})
    for s in extra_subsets:
        add(set(s) & set(opt))
    subs = sorted(subs, key=lambda s: (len(s), sorted(s)))
    if len(subs) > limit:
        subs = subs[:limit // 2] + subs[-limit // 2:]
    out = []
    for s in subs:
        given = {o: sym(o) for o in s}
        lab = "+".join(sorted(s)) or "-"
        if coef:
            out.append(Profile(lab + "|coef", {**req, **given, **coef, **flags}))
        out.append(Profile(lab + "|default", {**req, **given, **flags}))
        if flags:
            out.append(Profile(lab + "|allomit", {**req, **given}))
    return out


# ------------------------------------------------------------------ results
RAISED = mk("raised")


def raise_cond(res):
    c = FALSE
    for e in res.events:
        if e.kind == "raise":
            c = or_(c, e.cond)
    return c


def errors(res):
    """events that make the analysed call fail with something else than a deliberate raise"""
    return [e for e in res.events if e.kind in ("badcall", "badname", "unbound", "zerodiv")]


def wrap(v, c):
    """result value, RAISED where the call raises"""
    if v is BOT:
        return RAISED
    if isinstance(v, Tup):
        return Tup([wrap(x, c) for x in v.items])
    if isinstance(v, Dct):
        return Dct({k: wrap(x, c) for k, x in v.d.items()})
    if isinstance(v, Rec):
        return Dct({k: wrap(x, c) for k, x in v.fields.items()})
    if isinstance(v, Choice):
        a, b = wrap(v.a, c), wrap(v.b, c)
        return Choice(v.cond, a, b)
    n = to_node(v)
    return sel(c, RAISED, n)
