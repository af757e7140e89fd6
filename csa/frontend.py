"""Parse the analysed package (never import it) and index modules/functions."""
import ast
import os

REPO = os.environ.get("CSA_REPO", "/repo")
PKG = "deltares_coastal_structures_toolbox"


class AnalysisBroken(Exception):
    """the analysed tree can no longer be read the way the rules need"""


class Module:
    def __init__(self, name, path, is_pkg=False):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.env = None  # filled by interp
        self.functions = {}
        for st in self.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = st

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)

    def short(self):
        return self.name.split(".functions.")[-1] if ".functions." in self.name else self.name


class Program:
    """all modules below one root package, by dotted name"""

    def __init__(self, root, pkg):
        self.root, self.pkg = root, pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                self.modules[rel] = Module(rel, p, is_pkg)

    def by_short(self, short):
        n = f"{self.pkg}.functions.{short}"
        if n in self.modules:
            return self.modules[n]
        return self.modules.get(short)


_prog = None


def repo_program():
    global _prog
    if _prog is None:
        _prog = Program(REPO, PKG)
    return _prog
