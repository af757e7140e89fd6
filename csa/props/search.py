"""Table searches (Takahashi): the element that is returned is the one the search selects, and the last table is as fine as the
documented accuracy of 1 mm.  Read off the result term; another kind of solver is left undecided."""
from ..api import where, missing
from ..compare import repo_side
from ..graph import Node, mk, num, sym, TRUE, FALSE, and_, not_, walk, show, isnum
from ..interp import BOT, to_node, arith
from .. import decide, nf
from ..report import Outcome

TK = "structural.stability_toe_berm.takahashi1990_caisson."
HS, HACC = TK + "calculate_significant_wave_height_Hs", TK + "calculate_significant_depth_above_toe_hacc"
FINE = 0.0010001


def arms(n, c=TRUE):
    if n.op == "sel":
        return arms(n.args[1], and_(c, n.args[0])) + arms(n.args[2], and_(c, not_(n.args[0])))
    return [(c, n)]


def step_of(tab):
    """step of an np.arange term"""
    if tab.op != "ext" or tab.args[0] != "numpy.arange":
        return None
    a = list(tab.args[1:])
    pos, i = [], 0
    while i < len(a):
        if a[i].op == "str" and str(a[i].args[0]).startswith("="):
            if a[i].args[0] == "=step":
                return a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    return pos[2] if len(pos) > 2 else num(1)


def coarse(d, c):
    """True: larger than 1 mm somewhere, False: never, None: unknown"""
    if d is None or any(x.op in ("loopv", "lv", "opaque", "elem", "ext", "idx") for x in walk(d)):
        return None
    if isnum(d):
        return abs(float(d.args[0])) > FINE
    v = decide.equal_nodes(and_(c, mk("cmp", "<", num(FINE), d)), FALSE, budget=40, points=400, seconds=4)
    return True if v.kind == "refuted" else False if v.kind == "proved" else None


def wave_height(v, c, o, key, call):
    if v.op != "idx" or not isinstance(v.args[1], Node):
        return o.ob(False, f"{key}: result is not an element of a table")
    tab, i = v.args
    if (isnum(i) or i.op == "slice") and (tab.op == "loopv" or step_of(tab) is not None):
        o.obligations += 1
        return o.violation(key, f"{call}: element {show(i, 3)} of the table is returned whatever the search finds")
    picks = [x for x in walk(i) if x.op == "fn" and x.args[0] in ("argmin", "argmax", "nanargmin", "nanargmax")]
    if not picks:
        return o.ob(False, f"{key}: index {show(i, 3)}")
    outer = [m for m in picks if not any(m is not q and any(x is m for x in walk(q)) for q in picks)]
    m = outer[0]
    z = m.args[1]
    if m.args[0].endswith("argmax"):
        o.obligations += 1
        return o.violation(key, f"{call}: the element with the largest mismatch is returned")
    if z.op == "sub":
        o.obligations += 1
        return o.violation(key, f"{call}: the search takes the most negative mismatch instead of the smallest one")
    if not (z.op == "fn" and z.args[0] == "abs" and z.args[1].op == "sub"):
        return o.ob(False, f"{key}: mismatch {show(z, 3)}")
    a, b = z.args[1].args
    if tab not in (a, b):
        if tab.op in ("loopv", "ext"):
            o.obligations += 1
            return o.violation(key, f"{call}: the index found in one table is used in another table")
        return o.ob(False, f"{key}: table {show(tab, 2)}")
    if i is not m:
        o.obligations += 1
        return o.violation(key, f"{call}: the element returned is not the one with the smallest mismatch but {show(i, 3)[:120]}")
    st = step_of(a) or step_of(b)
    k = coarse(st, c)
    if k:
        o.obligations += 1
        return o.violation(key, f"{call}: the last table has steps of {show(st, 3)[:80]}, coarser than 1 mm")
    o.ob(k is False, f"{key}: step of the last table")


def carried(n, i):
    """initial value and update of the i-th variable of a loop term"""
    rest = n.args[4:]
    return rest[3 * i + 1], rest[3 * i + 2]


def depth(v, c, o, key, call):
    if v.op != "idx" or v.args[0].op != "loopv" or not isnum(v.args[1]):
        return o.ob(False, f"{key}: result is not the last element of a table")
    loop, i = v.args
    if float(i.args[0]) != -1:
        o.obligations += 1
        return o.violation(key, f"{call}: element {show(i, 3)} of the depths is returned instead of the one at which the search stopped")
    _, st = carried(loop, loop.args[0])
    if not (st.op == "ext" and st.args[0] == "numpy.append" and len(st.args) == 3):
        return o.ob(False, f"{key}: table of depths")
    x = st.args[2]
    lvs = [y for y in walk(x) if y.op == "lv"]
    if len(lvs) != 1:
        return o.ob(False, f"{key}: depth {show(x, 3)}")
    d = decide_sub(x, lvs[0])
    k = coarse(d, c)
    if k:
        o.obligations += 1
        return o.violation(key, f"{call}: the depth is searched in steps of {show(d, 3)[:80]}, coarser than 1 mm")
    o.ob(k is False, f"{key}: step of the depth")
    init, _ = carried(loop, lvs[0].args[0])
    first = [y for y in walk(init) if y.op == "idx" and y.args[0].op == "loopv"]
    if first:
        # the refinement starts one coarse step before the place the coarse search found
        _, st0 = carried(first[0].args[0], first[0].args[0].args[0])
        if st0.op == "ext" and st0.args[0] == "numpy.append":
            l0 = [y for y in walk(st0.args[2]) if y.op == "lv"]
            if len(l0) == 1:
                d0 = decide_sub(st0.args[2], l0[0])
                back = decide_sub(first[0], init)
                if d0 is not None and back is not None:
                    r = decide.equal_nodes(mk("cmp", "<", back, arith("mul", d0, num(0.999))), FALSE, budget=40, points=300, seconds=4)
                    if r.kind == "refuted":
                        o.obligations += 1
                        return o.violation(key, f"{call}: the refinement starts {show(back, 3)[:60]} before the place the coarse "
                                                f"search found, which moves in steps of {show(d0, 3)[:60]}")
                    o.ob(r.kind == "proved", f"{key}: start of the refinement")


def decide_sub(a, b):
    try:
        p = nf.to_term(nf.poly(arith("sub", a, b))) if hasattr(nf, "to_term") else arith("sub", a, b)
    except Exception:
        return None
    p = p if isinstance(p, Node) else None
    if p is None or any(x.op in ("lv", "loopv") for x in walk(p)):
        q = a.args[1] if a.op == "add" and a.args[0] is b else a.args[0] if a.op == "add" and a.args[1] is b else None
        if q is None and b.op == "sub" and b.args[0] is a:
            q = b.args[1]
        return q
    return p


def check_search(s):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    R = repo_side()
    try:
        r = R.run(s, {p: sym(p) for p, _ in R.signature(s)})
    except RecursionError:
        o.ob(False, f"{s}: recursion limit")
        return o
    if r.value is BOT or not isinstance(r.value, Node):
        o.ob(False, f"{s}: no single result")
        return o
    for c, v in arms(r.value):
        (wave_height if s == HS else depth)(v, c, o, s, where(s))
    return o
