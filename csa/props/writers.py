"""Input-file writers: the file a call leaves behind, read off the ordered effects (open, write, to_csv) of the interpreted
function: its path, its comment records, its table's columns, order, separator, and that the values are the caller's."""
import re

from ..api import where, missing
from ..compare import repo_side
from ..graph import Node, mk, num, sym, TRUE, FALSE, NONE, walk, show
from ..interp import Tup, Dct, Rec, Choice, BOT, to_node
from .. import identity
from ..report import Unit, Outcome
from .arrays import side

OV = "hydraulic.wave_overtopping."
SPEC = {
    OV + "vangent2007.write_input_file_NN_Overtopping": dict(
        ext=".inp", sep=" ", index=False, header=False,
        cols=["beta", "h", "Hm0", "Tmm10", "ht", "Bt", "gamma_f", "cot_alpha_down", "cot_alpha_up", "Rc", "B_berm", "db",
              "tan_alpha_B", "Ac", "Gc"], names=None,
        comments=["angle of wave", "water depth in front", "wave height", "wave period", "water depth at the toe", "width of toe",
                  "roughness", "down slope", "upper slope", "crest freeboard", "berm width", "water depth at the berm",
                  "berm slope", "armour freeboard", "armour width"]),
    OV + "denbieman2021.write_input_file_XGB_Overtopping": dict(
        ext=".csv", sep=";", index=True, header=True,
        cols=["beta", "h", "Hm0", "Tmm10", "ht", "Bt", "db", "B_berm", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up",
              "gamma_f_down", "gamma_f_up", "tan_alpha_f"],
        names=["b", "h", "Hm0 toe", "Tm-1,0 toe", "ht", "Bt", "hb", "B", "Rc", "Ac", "Gc", "cotad", "cotau", "gf_d", "gf_u",
               "tanaf"], comments=None),
}
QUIET = {"os.path.join", "builtins.open", "open", "pandas.DataFrame", "pathlib.Path", "io.open"}


class Unknown(Exception):
    pass


def pieces(n):
    """a string-valued term as a list of constants and symbol names"""
    if not isinstance(n, Node):
        n = to_node(n)
    if n.op == "str":
        return [n.args[0]]
    if n.op in ("ssym", "sym"):
        return [("arg", n.args[0])]
    if n.op == "fmt":
        if len(n.args) > 1:
            raise Unknown
        return pieces(n.args[0])
    if n.op == "ext" and n.args[0] == "os.path.join":
        out = []
        for i, x in enumerate(n.args[1:]):
            out += (["/"] if i else []) + pieces(x)
        return merged(out)
    if n.op == "fstr":
        return merged([y for x in n.args for y in pieces(x)])
    if n.op in ("add", "concat"):
        return merged([y for x in n.args for y in pieces(x)])
    if n.op == "ext" and n.args[0] in ("pathlib.Path", "pathlib.PurePath", "str") and len(n.args) == 2:
        return pieces(n.args[1])
    if n.op == "div":
        return merged(pieces(n.args[0]) + ["/"] + pieces(n.args[1]))
    raise Unknown


def merged(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def const(v, default):
    if v is None:
        return default
    n = to_node(v)
    if n is TRUE or n is FALSE:
        return n is TRUE
    if n is NONE:
        return None
    if n.op == "str":
        return n.args[0]
    raise Unknown


def altered(k, t):
    """options of to_csv that change what the file says"""
    out = []

    def text(name):
        n = to_node(k[name]) if name in k else None
        return n.args[0] if n is not None and n.op == "str" else None
    na = text("na_rep")
    if na is not None:
        try:
            if float(na.replace(",", ".")) == float(na.replace(",", ".")):
                out.append(f"missing values are written as {na!r}")
        except ValueError:
            pass
    q = to_node(k["quoting"]) if "quoting" in k else None
    if q is not None:
        name = str(int(q.args[0])) if q.op == "num" else show(q, 2)
        if name in ("1", "csv.QUOTE_ALL") or name in ("2", "csv.QUOTE_NONNUMERIC") and t.header:
            out.append("values are put in quotes")
        elif name not in ("0", "2", "3", "csv.QUOTE_MINIMAL", "csv.QUOTE_NONE", "csv.QUOTE_NONNUMERIC", "none"):
            k["quoting?"] = k["quoting"]
    lt = text("lineterminator")
    if lt is not None and lt not in ("\n", "\r\n"):
        out.append(f"rows end in {lt!r}")
    en = text("encoding")
    if en is not None and en.lower().replace("_", "-") not in ("utf-8", "utf8", "ascii", "latin-1", "latin1", "cp1252", "iso-8859-1"):
        out.append(f"the file is encoded as {en}")
    co = text("compression")
    if co is not None and co != "infer":
        out.append(f"the file is compressed ({co})")
    return out


class Table:
    def __init__(self, df, sep, index, header):
        self.df, self.sep, self.index, self.header = df, sep, index, header


def effects(r):
    """[(path pieces, [segments])] after the call"""
    files, handles = {}, {}
    frames = {}

    def target(v):
        n = to_node(v)
        if n.op == "ext" and n.args[0].endswith("open"):
            return tuple(map(str, pieces(n.args[1]))), True
        if n.op == "opq" and "open" in n.args[:2]:
            return tuple(map(str, pieces(next(x for x in n.args if isinstance(x, Node))))), True
        return tuple(map(str, pieces(n))), False
    for e in r.events:
        if e.kind == "raise":
            continue
        if e.kind in ("unsupported", "badcall", "badname"):
            raise Unknown
        if e.kind not in ("extcall", "method"):
            continue
        if e.inloop or e.cond is not TRUE:
            raise Unknown
        d = e.data
        if e.kind == "extcall":
            if d["name"] == "pandas.DataFrame":
                frames.setdefault("last", []).append(d)
                continue
            if d["name"].endswith("open"):
                m = const(d["args"][1] if len(d["args"]) > 1 else d["kwargs"].get("mode"), "r")
                p = tuple(map(str, pieces(d["args"][0])))
                if m.startswith("w"):
                    files[p] = []
                elif m.startswith("a"):
                    files.setdefault(p, [("old", None)])
                else:
                    raise Unknown
                continue
            if d["name"] in QUIET or d["name"].startswith(("numpy.", "os.path.")):
                continue
            raise Unknown
        if d["name"] in ("write", "writelines"):
            p, h = target(d["obj"])
            if not h:
                raise Unknown
            a = d["args"][0]
            its = a.items if isinstance(a, Tup) else [a]
            if d["name"] == "write" and isinstance(a, Tup):
                raise Unknown
            files.setdefault(p, []).append(("text", merged([y for x in its for y in pieces(x)])))
        elif d["name"] == "to_csv":
            k = dict(d["kwargs"])
            tgt = d["args"][0] if d["args"] else k.pop("path_or_buf", None)
            if tgt is None:
                raise Unknown
            p, h = target(tgt)
            t = Table(d["objv"], const(d["args"][1] if len(d["args"]) > 1 else k.pop("sep", None), ","), const(k.pop("index", None), True),
                      const(k.pop("header", None), True))
            mode = const(k.pop("mode", None), "w")
            ff = k.pop("float_format", None)
            t.float_format = None if ff is None else const(ff, None)
            t.decimal = const(k.pop("decimal", None), ".")
            t.columns = k.pop("columns", None)
            t.index_label = const(k.pop("index_label", None), None)
            t.altered = altered(k, t)
            t.other = [x for x in k if x not in ("encoding", "lineterminator", "chunksize", "errors", "compression", "na_rep", "quoting")]
            if h or mode.startswith("a"):
                files.setdefault(p, [] if h else [("old", None)]).append(("table", t))
            elif mode.startswith(("w", "x")):
                files[p] = [("table", t)]
            else:
                files[p] = [("mode", mode)]
        elif d["name"] in ("close", "flush", "__enter__", "__exit__"):
            pass
        else:
            raise Unknown
    return files, frames.get("last", [])


def check_writer(s, arrays):
    o = Outcome()
    o.functions.add(s)
    if missing(s, o):
        return o
    sp = SPEC[s]
    R = side(arrays) if arrays else repo_side()
    sig = R.signature(s)
    args = {p: (mk("ssym", p) if p in ("output_dir", "file_name") else sym(p)) for p, _ in sig}
    r = R.run(s, args)
    tag = "scalars" if not arrays else "arrays " + ", ".join(sorted(arrays)) if len(arrays) < 3 else "all arrays"
    W = f"{where(s)} [{tag}]"

    def bad(k, t):
        o.obligations += 1
        o.violation(f"{s}:{k}", f"{W}: {t}")
    if r.value is BOT:
        bad("raises", "the call never returns")
        return o
    if any(e.kind in ("ambiguous", "ragged") and e.cond is TRUE for e in r.events):
        bad("arrays", "the call fails for this mix of scalars and arrays")
        return o
    try:
        files, frames = effects(r)
    except (Unknown, KeyError, IndexError, AttributeError, TypeError):
        o.ob(False, f"{s} [{tag}]: effects not of a known form")
        return o
    want = tuple(map(str, [("arg", "output_dir"), "/", ("arg", "file_name"), sp["ext"]]))
    if set(files) != {want}:
        bad("path", f"the file is not <output_dir>/<file_name>{sp['ext']} only")
        return o
    o.ob(True)
    seg = files[want]
    if any(k == "mode" for k, _ in seg):
        bad("mode", "the file is opened in a mode that does not write")
        return o
    if any(k == "old" for k, _ in seg):
        bad("append", "the records are appended to whatever the file held before")
        return o
    tabs = [x for k, x in seg if k == "table"]
    if len(tabs) != 1 or seg[-1][0] != "table":
        bad("order", "the file does not end in exactly one table")
        return o
    o.ob(True)
    t = tabs[0]
    text = merged([y for k, x in seg if k == "text" for y in x])
    if sp["comments"] is None:
        if text:
            bad("comments", "text precedes the header row")
            return o
        o.ob(True)
    else:
        flat = "".join(x if isinstance(x, str) else "NAME" for x in text)
        if flat and not flat.endswith("\n"):
            bad("comments", "the comment records do not end before the table")
        elif any(ln and not ln.startswith(("!", "*")) for ln in flat.split("\n")):
            bad("comments", "a record before the table is not marked as comment")
        else:
            o.ob(True)
        cs = re.findall(r"COLUMN#(\d+)\s+(.*)", flat)
        if cs:
            ok = [int(a) for a, _ in cs] == list(range(1, len(sp["comments"]) + 1)) and all(
                k in b.lower() for k, (_, b) in zip(sp["comments"], cs))
            if ok:
                o.ob(True)
            else:
                bad("columns described", "the comment records describe the columns in another order than the table has")
    for k in ("sep", "index", "header"):
        if getattr(t, k) != sp[k]:
            bad(k, f"the table is written with {k}={getattr(t, k)!r} instead of {sp[k]!r}")
        else:
            o.ob(True)
    if t.float_format is not None:
        bad("float_format", f"values are rounded to the format {t.float_format!r}")
    if t.decimal != ".":
        bad("decimal", f"decimal sign {t.decimal!r}")
    if t.header and t.index and t.index_label:
        bad("index_label", f"the index column is headed {t.index_label!r}")
    for x in t.altered:
        bad("options", x)
    for f in frames:
        dt = f["kwargs"].get("dtype")
        dt = show(to_node(dt), 2).strip("'\"").rpartition(".")[2] if dt is not None else "none"
        if dt.startswith(("int", "uint", "bool", "float32", "float16", "half", "single", "i", "u")):
            bad("dtype", f"the values are converted to {dt}")
        elif dt not in ("none", "float", "float64", "object", "double"):
            o.ob(False, f"{s} [{tag}]: dtype {dt}")
    if isinstance(t.df, Rec) and getattr(t.df, "ops", ()):
        bad("values", f"the rows or values are changed by {', '.join(t.df.ops)} before they are written")
    if t.columns is not None:
        try:
            t.df = Rec("DataFrame", {const(x, None): t.df.fields[const(x, None)] for x in t.columns.items})
        except (Unknown, KeyError, AttributeError):
            o.ob(False, f"{s} [{tag}]: columns option of to_csv")
            return o
    if t.other:
        o.ob(False, f"{s} [{tag}]: unknown options of to_csv {t.other}")
        return o
    if not isinstance(t.df, Rec) or t.df.cls != "DataFrame":
        o.ob(False, f"{s} [{tag}]: table not built from a dictionary of columns")
        return o
    cols = list(t.df.fields.items())
    if len(cols) != len(sp["cols"]):
        bad("columns", f"{len(cols)} columns instead of {len(sp['cols'])}")
        return o
    for i, ((name, v), p) in enumerate(zip(cols, sp["cols"])):
        n = to_node(v)
        if n is sym(p):
            o.ob(True)
        elif identity.refute(n, sym(p), n=40) is not None:
            bad(f"column {i + 1}", f"column {i + 1} ({name}) holds {show(n, 4)} instead of {p}")
        else:
            o.ob(False, f"{s} [{tag}]: column {i + 1}")
        if sp["names"]:
            if name == sp["names"][i]:
                o.ob(True)
            else:
                bad(f"name {i + 1}", f"column {i + 1} is headed {name!r} instead of {sp['names'][i]!r}")
    if len(frames) == 1:
        ix = frames[0]["kwargs"].get("index", NONE)
        if len(frames[0]["args"]) > 1:
            ix = frames[0]["args"][1]
        given = isinstance(ix, Tup)
        if isinstance(ix, Tup) or to_node(ix) is NONE:
            if not arrays and not given:
                bad("index", "a call with scalars only fails: the table gets no index")
            elif arrays and given:
                bad("index", "a call with arrays gets a table of one row")
            elif given and len(ix.items) != 1:
                bad("index", "the table of a call with scalars does not have one row")
            elif given and t.index and to_node(ix.items[0]) is not num(0):
                bad("index", "the first row is not numbered 0")
            else:
                o.ob(True)
        else:
            o.ob(False, f"{s} [{tag}]: index")
    return o


def minimum(pid):
    return 60


def units(pid, tier):
    out = []
    for s, sp in SPEC.items():
        out.append(Unit(s, (check_writer, s, frozenset())))
        out.append(Unit(s + "#all", (check_writer, s, frozenset(sp["cols"]))))
        out += [Unit(f"{s}#{p}", (check_writer, s, frozenset([p]))) for p in sp["cols"]]
    return out
