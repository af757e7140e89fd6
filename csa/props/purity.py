"""Flow-sensitive may-alias and effect analysis with interprocedural summaries: which caller arguments or module-level
objects may be written in place, and which outside effects (files, randomness, clock, environment, caches) a function has."""
import ast

from ..frontend import repo_program, PKG
from ..report import Unit, Outcome

VIEW_FN = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "broadcast_to",
           "ascontiguousarray", "moveaxis", "swapaxes", "real", "flip", "diagonal", "broadcast_arrays", "split", "array_split",
           "expand_dims", "float64", "asfarray", "require", "rot90", "nan_to_num", "array"}
VIEW_METH = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "get", "setdefault", "values", "items",
             "diagonal", "__iter__", "pop"}
VIEW_ATTR = {"T", "real", "imag", "flat", "values", "base"}
MUT_METH = {"sort", "fill", "resize", "put", "itemset", "append", "extend", "insert", "remove", "reverse", "clear", "update",
            "setdefault", "popitem", "pop", "partition", "setflags", "add", "discard", "byteswap", "__setitem__",
            "__iadd__", "__imul__", "__delitem__"}
MUT_NP = {"put": 0, "place": 0, "copyto": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0}
WRITERS = {"write_input_file_NN_Overtopping", "write_input_file_XGB_Overtopping"}
BAD_EXT = ("numpy.random", "random.", "time.", "datetime.", "os.environ", "os.getenv", "os.remove", "os.unlink", "os.rename",
           "os.mkdir", "os.makedirs", "os.rmdir", "os.system", "os.chdir", "os.putenv", "shutil.", "subprocess.", "sys.stdout",
           "sys.setrecursionlimit", "sys.exit", "os._exit", "os.replace", "os.urandom", "secrets.", "uuid.",
           "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.setbufsize", "warnings.simplefilter",
           "warnings.filterwarnings", "warnings.resetwarnings", "threading.", "tempfile.", "socket.", "urllib.", "locale.",
           "gc.", "atexit.", "signal.", "pickle.dump", "json.dump", "numpy.save", "numpy.savetxt", "numpy.savez")
BAD_BUILTIN = {"print", "input", "exec", "eval", "setattr", "delattr", "globals", "vars", "__import__", "breakpoint", "exit", "quit"}
CACHE = {"functools.lru_cache", "functools.cache", "functools.cached_property", "joblib.Memory"}
WRITE_METH = {"to_csv", "to_excel", "to_json", "to_pickle", "tofile", "write", "writelines", "savefig", "dump", "write_text",
              "write_bytes", "unlink", "mkdir", "touch", "rename"}


def is_scalar_annotation(a):
    if a is None:
        return None
    t = ast.unparse(a)
    if any(w in t for w in ("NDArray", "ndarray", "list", "dict", "Sequence", "Iterable", "Any", "ArrayLike", "object",
                            "Series", "DataFrame", "set", "Mapping", "FloatOr", "Array")):
        return False
    return all(w.strip() in ("float", "int", "str", "bool", "None", "complex") for w in t.replace("|", ",").replace(
        "Optional[", "").replace("Union[", "").replace("]", "").split(",")) or None


class Summary:
    def __init__(self):
        self.mutates = {}     # param -> reason
        self.returns = set()  # params the result may alias
        self.globals = {}     # module-level object -> reason
        self.effects = {}     # text -> site

    def key(self):
        return (frozenset(self.mutates), frozenset(self.returns), frozenset(self.globals), frozenset(self.effects))


class Func:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.outer = module, node, outer
        self.qual = f"{module.name}.{getattr(node, 'name', '<lambda>')}"
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.scalar = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if is_scalar_annotation(x.annotation)}
        self.mutable_defaults = set()
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
                (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call):
                self.mutable_defaults.add(x.arg)
        self.summary = Summary()


class Program:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = {}        # (module, name) -> Func
        self.imports = {}      # module -> name -> dotted
        self.toplevel = {}     # module -> names bound at module level
        self.all = []
        for m in prog.modules.values():
            imp, top = {}, set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ""
                    if n.level:
                        parts = m.name.split(".")
                        parts = parts[: len(parts) - n.level + (1 if m.is_pkg else 0)]
                        base = ".".join(parts + ([n.module] if n.module else []))
                    for a in n.names:
                        imp[a.asname or a.name] = f"{base}.{a.name}"
            for st in m.tree.body:
                for t in targets(st):
                    top.add(t)
            self.imports[m.name], self.toplevel[m.name] = imp, top
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, n)
                    self.all.append(f)
                    if n in m.tree.body:
                        self.funcs[(m.name, n.name)] = f
                    else:
                        self.funcs.setdefault((m.name, n.name), f)

    def dotted(self, m, e):
        """dotted name of an expression, imports resolved; None when it is not a plain name chain"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        root = self.imports[m.name].get(e.id, e.id)
        return ".".join([root] + parts[::-1])

    def callee(self, m, e):
        d = self.dotted(m, e)
        if d is None:
            return None
        if "." not in d:
            return self.funcs.get((m.name, d))
        mod, _, f = d.rpartition(".")
        for _ in range(4):
            if (mod, f) in self.funcs:
                return self.funcs[(mod, f)]
            if mod in self.imports and f in self.imports[mod]:
                mod, _, f = self.imports[mod][f].rpartition(".")
            else:
                return None
        return None


def targets(st):
    out = []
    if isinstance(st, ast.Assign):
        for t in st.targets:
            out += [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
    elif isinstance(st, (ast.AnnAssign, ast.AugAssign)) and isinstance(st.target, ast.Name):
        out.append(st.target.id)
    return out


class Walk:
    """one pass over a function body; env: variable -> frozenset of origins ('p', param) / ('g', name)"""

    def __init__(self, P, f):
        self.P, self.f, self.m = P, f, f.module
        self.s = Summary()
        a = f.node
        self.locals = {n.id for n in ast.walk(a) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)
        self.gdecl = {x for n in ast.walk(a) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        env = {p: frozenset({("p", p)}) for p in f.params}
        for d in getattr(a, "decorator_list", []):
            nm = P.dotted(self.m, d.func if isinstance(d, ast.Call) else d)
            if nm in CACHE:
                self.eff(f"results are cached by @{nm.split('.')[-1]}: a repeated call issues no warnings", d)
        self.block(a.body, env)

    def site(self, n):
        return f"{self.m.rel}:{n.lineno} in {self.f.node.name}"

    def eff(self, t, n):
        self.s.effects.setdefault(t, self.site(n))

    def mutate(self, orig, why, n):
        for k, v in orig:
            if k == "p":
                self.s.mutates.setdefault(v, f"{why} at {self.site(n)}")
            else:
                self.s.globals.setdefault(v, f"{why} at {self.site(n)}")

    # ---- expressions: origins of the value
    def ex(self, e, env):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id not in self.locals or e.id in self.gdecl:
                if e.id in self.P.toplevel[self.m.name]:
                    return frozenset({("g", f"{self.m.name}.{e.id}")})
            return frozenset()
        if isinstance(e, ast.Attribute):
            d = self.P.dotted(self.m, e)
            if d:
                mod, _, nm = d.rpartition(".")
                if mod in self.P.toplevel and nm in self.P.toplevel[mod]:
                    return frozenset({("g", d)})
                if any(d == b or d.startswith(b) for b in ("os.environ",)):
                    self.eff("reads the environment", e)
            o = self.ex(e.value, env)
            return o if e.attr in VIEW_ATTR or any(k == "g" for k, _ in o) else frozenset()
        if isinstance(e, ast.Subscript):
            self.ex(e.slice, env)
            return self.ex(e.value, env)
        if isinstance(e, ast.Starred):
            return self.ex(e.value, env)
        if isinstance(e, ast.IfExp):
            self.ex(e.test, env)
            return self.ex(e.body, env) | self.ex(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            r = frozenset()
            for v in e.values:
                r |= self.ex(v, env)
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = frozenset()
            for v in e.elts:
                r |= self.ex(v, env)
            return self.inner(r)
        if isinstance(e, ast.Dict):
            r = frozenset()
            for v in list(e.keys) + list(e.values):
                if v is not None:
                    r |= self.ex(v, env)
            return self.inner(r)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                o = self.ex(g.iter, env2)
                self.bind(g.target, o, env2)
                for c in g.ifs:
                    self.ex(c, env2)
            if isinstance(e, ast.DictComp):
                self.ex(e.key, env2)
                return self.inner(self.ex(e.value, env2))
            return self.inner(self.ex(e.elt, env2))
        if isinstance(e, ast.Lambda):
            return frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, env)
        return frozenset()

    @staticmethod
    def inner(r):
        """a fresh container holding these objects: writing the container is harmless, writing its elements is not"""
        return frozenset(("i" + k if not k.startswith("i") else k, v) for k, v in r)

    def call(self, e, env):
        args = [self.ex(a, env) for a in e.args]
        kws = [(k.arg, self.ex(k.value, env)) for k in e.keywords]
        callee = self.P.callee(self.m, e.func) if not (isinstance(e.func, ast.Name) and e.func.id in env) else None
        if callee is not None:
            s = callee.summary
            bind = {}
            names = callee.params
            npos = len(callee.node.args.posonlyargs + callee.node.args.args)
            va, kwn = callee.node.args.vararg, callee.node.args.kwarg
            for i, o in enumerate(args):
                if isinstance(e.args[i], ast.Starred):
                    for p in names[i:npos]:
                        bind[p] = bind.get(p, frozenset()) | o
                elif i < npos:
                    bind[names[i]] = o
                elif va:
                    bind[va.arg] = bind.get(va.arg, frozenset()) | o
            for k, o in kws:
                if k is None:
                    for p in names:
                        bind[p] = bind.get(p, frozenset()) | self.outer(o)
                elif k in names:
                    bind[k] = o
                elif kwn:
                    bind[kwn.arg] = bind.get(kwn.arg, frozenset()) | o
            for p, why in s.mutates.items():
                for k, v in bind.get(p, ()):
                    if k in ("p", "g"):
                        self.mutate([(k, v)], f"passed to {callee.node.name}, {why}", e)
            for g, why in s.globals.items():
                self.s.globals.setdefault(g, why)
            for t, site in s.effects.items():
                self.s.effects.setdefault(t, site)
            r = frozenset()
            for p in s.returns:
                r |= bind.get(p, frozenset())
            return r
        d = self.P.dotted(self.m, e.func)
        f = e.func
        if d is not None and not (isinstance(f, ast.Name) and f.id in self.locals and f.id not in self.gdecl):
            nm = d.split(".")[-1]
            if "." not in d and d in BAD_BUILTIN:
                self.eff(f"calls {d}()", e)
            if d == "open":
                mode = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "mode"), None)
                self.eff("opens a file" + (" for writing" if not (mode is None or isinstance(mode, ast.Constant) and set(
                    str(mode.value)) <= set("rbt")) else ""), e)
            for b in BAD_EXT:
                if d == b or d.startswith(b if b.endswith(".") else b + "."):
                    self.eff(f"calls {d}", e)
            if d.startswith("numpy."):
                if nm in MUT_NP and args:
                    self.mutate([x for x in args[0] if x[0] in "pg"], f"numpy.{nm} writes into it", e)
                if nm == "at" and args:
                    self.mutate([x for x in args[0] if x[0] in "pg"], f"{d} writes into it", e)
                for k, o in kws:
                    if k == "out":
                        self.mutate([(x[-1:] and (x[0].lstrip("i"), x[1])) for x in o], f"used as out= of {d}", e)
                kw = dict((k.arg, k.value) for k in e.keywords)
                cp = kw.get("copy")
                nocopy = isinstance(cp, ast.Constant) and cp.value in (False, None)
                if nm == "nan_to_num":
                    if nocopy:
                        self.mutate([x for x in (args[0] if args else ()) if x[0] in "pg"], "nan_to_num(copy=False)", e)
                    else:
                        return frozenset()
                if nm == "array":
                    return args[0] if nocopy and args else frozenset()
                if nm in VIEW_FN:
                    r = frozenset()
                    for o in args[:1]:
                        r |= self.outer(o) if nm in ("broadcast_arrays",) else o
                    return r
                return frozenset()
            if d in ("iter", "reversed", "zip", "enumerate", "list", "tuple", "sorted", "dict", "map", "filter", "set", "max", "min"):
                r = frozenset()
                for o in args:
                    r |= o
                return r if d in ("iter", "zip", "enumerate", "reversed", "max", "min") else self.inner(r)
            if "." not in d or d.split(".")[0] in ("math", "numpy"):
                return frozenset()
        if isinstance(f, ast.Attribute):
            o = self.ex(f.value, env)
            if f.attr in MUT_METH:
                self.mutate([x for x in o if x[0] in ("p", "g")], f".{f.attr}()", e)
                root = f.value
                if f.attr in ("append", "extend", "insert", "add", "update", "setdefault") and isinstance(root, ast.Name):
                    add = frozenset()
                    for a in args + [v for _, v in kws]:
                        add |= self.inner(a)
                    env[root.id] = env.get(root.id, frozenset()) | add
            if f.attr in WRITE_METH:
                self.eff(f"writes a file (.{f.attr})", e)
            if f.attr in VIEW_METH:
                return o if f.attr not in ("values", "items", "get", "pop") else self.outer(o)
            if f.attr == "astype":
                cp = next((k.value for k in e.keywords if k.arg == "copy"), None)
                return o if isinstance(cp, ast.Constant) and cp.value is False else frozenset()
            return frozenset()
        if not isinstance(f, ast.Name):
            self.ex(f, env)
        return frozenset()

    @staticmethod
    def outer(r):
        return frozenset((k.lstrip("i") or k, v) for k, v in r)

    # ---- statements
    def bind(self, t, o, env):
        if isinstance(t, ast.Name):
            if t.id in self.gdecl:
                self.s.globals.setdefault(f"{self.m.name}.{t.id}", f"assigned at {self.site(t)}")
                return
            env[t.id] = o
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, self.outer(o), env)
        elif isinstance(t, ast.Subscript):
            self.ex(t.slice, env)
            w = self.ex(t.value, env)
            self.mutate([x for x in w if x[0] in ("p", "g")], "element assignment", t)
            root = t.value
            if isinstance(root, ast.Name) and root.id in env:
                env[root.id] = env[root.id] | self.inner(o)
        elif isinstance(t, ast.Attribute):
            w = self.ex(t.value, env)
            self.mutate([x for x in w if x[0] in ("p", "g")], "attribute assignment", t)
            d = self.P.dotted(self.m, t)
            if d and not (isinstance(t.value, ast.Name) and t.value.id in env):
                self.eff(f"assigns {d}", t)

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    @staticmethod
    def join(a, b):
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            o = self.ex(st.value, env)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(
                        t.elts) == len(st.value.elts):
                    vals = [self.ex(v, env) for v in st.value.elts]
                    for x, v in zip(t.elts, vals):
                        self.bind(x, v, env)
                else:
                    self.bind(t, o, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ex(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            self.ex(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                o = env.get(t.id, frozenset())
                if t.id in self.gdecl:
                    self.s.globals.setdefault(f"{self.m.name}.{t.id}", f"updated at {self.site(t)}")
                w = [x for x in o if x[0] in ("p", "g") and not (x[0] == "p" and x[1] in self.f.scalar)]
                self.mutate(w, f"in-place '{t.id} {type(st.op).__name__}='", st)
            else:
                self.bind(t, frozenset(), env)
        elif isinstance(st, ast.Expr):
            self.ex(st.value, env)
        elif isinstance(st, ast.Return):
            o = self.ex(st.value, env)
            self.s.returns |= {v for k, v in self.outer(o) if k == "p"}
        elif isinstance(st, ast.If):
            self.ex(st.test, env)
            a, b = dict(env), dict(env)
            self.block(st.body, a)
            self.block(st.orelse, b)
            ends = lambda bl: bool(bl) and isinstance(bl[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            r = b if ends(st.body) else a if ends(st.orelse) else self.join(a, b)
            env.clear()
            env.update(r)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(3):
                e2 = dict(env)
                if isinstance(st, ast.While):
                    self.ex(st.test, e2)
                else:
                    self.bind(st.target, self.outer(self.ex(st.iter, e2)), e2)
                self.block(st.body, e2)
                env.update(self.join(env, e2))
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                o = self.ex(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, o, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            e0 = dict(env)
            self.block(st.body, env)
            for h in st.handlers:
                e2 = self.join(e0, env)
                self.block(h.body, e2)
                env.update(self.join(env, e2))
            self.block(st.orelse, env)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.Match):
            self.ex(st.subject, env)
            r = dict(env)
            for c in st.cases:
                e2 = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e2[n.name] = self.ex(st.subject, env)
                self.block(c.body, e2)
                r = self.join(r, e2)
            env.update(r)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.bind(t, frozenset(), env)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # effects of nested functions count for the enclosing one
            g = self.P.funcs.get((self.m.name, st.name))
            if g is not None and g.node is st:
                for x, why in g.summary.globals.items():
                    self.s.globals.setdefault(x, why)
                for t, site in g.summary.effects.items():
                    self.s.effects.setdefault(t, site)
        elif isinstance(st, ast.Assert):
            self.ex(st.test, env)
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ex(st.exc, env)


def analyse():
    P = Program(repo_program())
    for _ in range(12):
        ch = False
        for f in P.all:
            s = Walk(P, f).s
            if s.key() != f.summary.key():
                ch = True
            f.summary = s
        if not ch:
            break
    return P


def public_names():
    from ..api import PUBLIC
    return set(PUBLIC) | {"core_utility.check_variable_validity_range"}


def check():
    o = Outcome()
    P = analyse()
    known = public_names()
    for f in P.all:
        short = f.module.name.split(".functions.")[-1] + "." + f.node.name
        if short not in known or P.funcs.get((f.module.name, f.node.name)) is not f:
            o.count("helpers, judged through their public callers")
            continue
        o.functions.add(f.qual)
        s = f.summary
        bad = False
        for p, why in s.mutates.items():
            if p in f.scalar:
                continue
            bad = True
            o.violation(f"{f.qual}:{p}", f"{f.module.rel}:{f.node.lineno} {f.qual}: the caller's argument {p} is modified: {why}")
        for p in s.mutates:
            if p in f.mutable_defaults:
                o.violation(f"{f.qual}:default {p}", f"{f.qual}: the default object of {p} is modified: {s.mutates[p]}")
        for g, why in s.globals.items():
            bad = True
            o.violation(f"{f.qual}:{g}", f"{f.qual}: module-level object {g} is modified: {why}")
        for t, site in s.effects.items():
            if f.node.name in WRITERS and (t.startswith("opens a file") or t.startswith("writes a file")):
                o.count("permitted writer effects")
                continue
            if reached_only_by_writers(P, f) and (t.startswith("opens a file") or t.startswith("writes a file")):
                continue
            bad = True
            o.violation(f"{f.qual}:{t}", f"{f.qual}: {t} ({site})")
        for k in range(len(f.params)):
            o.ob(not bad)
        o.count("parameters analysed", len(f.params))
    for m in P.prog.modules.values():
        o.count("modules")
    return o


def reached_only_by_writers(P, f):
    """a private helper of a module whose public functions are the file writers"""
    return f.node.name.startswith("_") and any((f.module.name, w) in P.funcs for w in WRITERS)


SELF = '''
import numpy as np
def bad(a):
    b = np.asarray(a)
    b *= 2
    return b
'''


def selftest():
    """a positive example the rule must match on every run (the expected count on the package is zero)"""
    import os
    import tempfile
    from ..frontend import Module
    o = Outcome()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.py")
        with open(p, "w") as fh:
            fh.write(SELF)

        class Pr:
            modules = {"m": Module("m", p)}
        P = Program(Pr)
        s = Walk(P, P.all[0]).s
    if "a" not in s.mutates:
        raise RuntimeError("purity self-test failed")
    o.count("self-test")
    return o


def units(pid, tier):
    return [Unit("package", (check,)), Unit("selftest", (selftest,))]


def minimum(pid):
    return 800
