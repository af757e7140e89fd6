"""The public functions and signatures the rules are instantiated for (confirmed by hand on the analysed commit)."""
import json
import os

from .compare import repo_side, profiles, errors, raise_cond

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "public.json")) as _f:
    PUBLIC = json.load(_f)
WRITERS = [s for s in PUBLIC if ".write_input_file_" in s]


def functions(writers=False):
    return [s for s in PUBLIC if writers or s not in WRITERS]


def missing(s, o):
    """report a vanished public function"""
    if repo_side().has(s):
        return False
    o.obligations += 1
    o.violation(s, f"public function {s} of the toolbox no longer exists")
    return True


def where(s):
    fn = repo_side().fn(s)
    return f"{fn.module.rel}:{fn.node.lineno} {s}"


def shape(args):
    return "{" + ", ".join(sorted(args)) + "}"
