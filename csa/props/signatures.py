"""Signatures: every public function still accepts its documented arguments, by position and by keyword, with the
documented default values; every sub-package still makes its modules reachable the documented way."""
import ast

from ..api import PUBLIC, where
from ..compare import repo_side
from ..graph import show
from ..interp import to_node
from ..report import Unit, Outcome


def default_text(d):
    return None if d is None else show(to_node(d), 6)


def num(t):
    try:
        return float(t)
    except (TypeError, ValueError):
        return None


def check():
    R = repo_side()
    o = Outcome()
    for s, want in PUBLIC.items():
        o.functions.add(s)
        if not R.has(s):
            o.obligations += 1
            o.violation(s, f"public function {s} no longer exists")
            continue
        fn = R.fn(s)
        a = fn.node.args
        got = R.signature(s)
        gd = dict(got)
        pos = [x.arg for x in a.posonlyargs + a.args]
        ponly = {x.arg for x in a.posonlyargs}
        names = [p for p, _ in want]
        for i, (p, d) in enumerate(want):
            o.obligations += 1
            if p not in gd and a.kwarg is None:
                o.violation(f"{s}:{p}", f"{where(s)}: argument {p} is no longer accepted")
                continue
            if p not in gd:
                o.undecided.append(f"{s}: {p} accepted through **{a.kwarg.arg}")
                continue
            if p in ponly:
                o.violation(f"{s}:{p}", f"{where(s)}: argument {p} can no longer be passed by keyword")
                continue
            if not (i < len(pos) and pos[i] == p) and a.vararg is None:
                o.violation(f"{s}:{p}", f"{where(s)}: argument {p} is no longer positional argument {i + 1}"
                                        f" (that is {pos[i] if i < len(pos) else 'nothing'})")
                continue
            t = default_text(gd[p])
            same = t == d or (num(t) is not None and num(d) is not None and (
                num(t) == num(d) or abs(num(t) - num(d)) <= 1e-9 * abs(num(d))))
            if not same:
                if (t is None) != (d is None) or gd[p] is not None and to_node(gd[p]).op in ("num", "nan", "bool", "str", "none"):
                    o.violation(f"{s}:{p}", f"{where(s)}: default of {p} is {t or 'missing'} instead of {d or 'none (required)'}")
                else:
                    o.undecided.append(f"{s}: default of {p}")
                continue
            o.proved += 1
        for p, d in got:
            if p not in names and d is None and p not in {x.arg for x in (a.vararg, a.kwarg) if x}:
                o.obligations += 1
                o.violation(f"{s}:{p}", f"{where(s)}: new required argument {p} breaks existing calls")
    return o


def units(pid, tier):
    return [Unit("signatures", (check,)), Unit("exports", (exports,))]


def minimum(pid):
    return 1500


def closure():
    """modules of the package loaded by importing only the top-level package, and what each __init__ binds"""
    from ..frontend import repo_program, PKG
    prog = repo_program()
    seen, todo = set(), [PKG]

    def load(n):
        parts = n.split(".")
        for i in range(1, len(parts) + 1):
            x = ".".join(parts[:i])
            if x in prog.modules and x not in seen:
                todo.append(x)
    binds = {}
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        m = prog.modules[n]
        b = binds.setdefault(n, set())
        for st in toplevel(m.tree.body):
            if isinstance(st, ast.Import):
                for a in st.names:
                    load(a.name)
                    b.add(a.asname or a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = n.split(".")
                    parts = parts[: len(parts) - st.level + (1 if m.is_pkg else 0)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                if base in prog.modules:
                    load(base)
                for a in st.names:
                    b.add(a.asname or a.name)
                    if f"{base}.{a.name}" in prog.modules:
                        load(f"{base}.{a.name}")
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                b.add(st.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    b |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    return prog, seen, binds


def toplevel(body):
    for st in body:
        if isinstance(st, (ast.If, ast.Try)):
            yield from toplevel(st.body)
            yield from toplevel(st.orelse)
            for h in getattr(st, "handlers", []):
                yield from toplevel(h.body)
            yield from toplevel(getattr(st, "finalbody", []))
        else:
            yield st


def exports():
    from ..frontend import PKG
    o = Outcome()
    prog, seen, binds = closure()
    dynamic = [m.rel for m in prog.modules.values() if m.is_pkg and any(
        isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("import_module", "__import__")
        or isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in ast.walk(m.tree))]
    for mod in sorted({s.rpartition(".")[0] for s in PUBLIC}):
        full = f"{PKG}.functions.{mod}"
        o.obligations += 1
        if full in seen:
            o.proved += 1
        elif dynamic or full not in prog.modules:
            o.undecided.append(f"{mod}: imported dynamically or moved")
        else:
            par = full.rpartition(".")[0]
            o.violation(f"export:{mod}", f"{prog.modules[par].rel}: importing the package no longer makes {mod} available")
    for n in sorted(seen):
        m = prog.modules[n]
        if not m.is_pkg:
            continue
        al = None
        for st in toplevel(m.tree.body):
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
                al = st.value
        if not isinstance(al, (ast.List, ast.Tuple)) or not all(isinstance(e, ast.Constant) for e in al.elts):
            continue
        names = [e.value for e in al.elts]
        sub = {x[len(n) + 1:].split(".")[0] for x in prog.modules if x.startswith(n + ".")}
        for nm in names:
            o.obligations += 1
            if nm in binds[n] or nm in sub:
                o.proved += 1
            else:
                o.violation(f"all:{n}:{nm}", f"{m.rel}: __all__ names '{nm}', which does not exist (star import fails)")
        for x in sorted(sub):
            if f"{n}.{x}" in seen and any(f"{PKG}.functions.{s}".startswith(f"{n}.{x}.") for s in PUBLIC):
                o.obligations += 1
                if x in names:
                    o.proved += 1
                else:
                    o.violation(f"all:{n}:{x}", f"{m.rel}: __all__ leaves out '{x}' (star import misses it)")
    return o
