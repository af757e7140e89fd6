"""python3 -m csa.run <property> : decide one property from the source under /repo."""
import gc
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def registry():
    from .props import conform
    reg = {p: conform for p in conform.GROUPS}
    try:
        from .props import table
        reg.update(table.REG)
    except ImportError:
        pass
    return reg


_UNITS = []


class Timeout(Exception):
    pass


def work(args):
    i, limit, deadline = args
    u = _UNITS[i]
    from .report import Outcome
    left = min(limit, deadline - time.time())
    if left < 1:
        o = Outcome()
        o.ob(False, f"{u.label}: not analysed, time limit")
        return i, o, None, 0.0

    def alarm(*_):
        raise Timeout
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, left)
    t = time.time()
    try:
        f, *a = u.fn
        o = f(*a)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return i, o, None, time.time() - t
    except Timeout:
        o = Outcome()
        o.ob(False, f"{u.label}: not decided within {left:.0f} s")
        return i, o, None, time.time() - t
    except BaseException:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return i, None, traceback.format_exc(), time.time() - t


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    t0 = time.time()
    limit = 600 if tier == "quick" else 6000
    mod = registry()[pid]
    from . import decide
    decide.HURRY = t0 + 0.6 * limit
    from .report import Outcome
    global _UNITS
    _UNITS = mod.units(pid, tier)
    gc.freeze()
    gc.disable()
    total = Outcome()
    broken = []
    order = sorted(range(len(_UNITS)), key=lambda i: -_UNITS[i].weight)
    n = min(int(os.environ.get("CSA_JOBS", "0")) or os.cpu_count() or 1, max(1, len(_UNITS)))
    per = limit / 2
    jobs = [(i, per, t0 + limit) for i in order]
    slow = []
    results = {}
    if n == 1:
        it = map(work, jobs)
        pool = None
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(n)
        it = pool.imap_unordered(work, jobs)
    for i, o, err, dt in it:
        slow.append((dt, _UNITS[i].label))
        if err:
            broken.append((_UNITS[i].label, err))
        else:
            results[i] = o
    if pool:
        pool.terminate()
    for i in sorted(results):
        total.merge(results[i])
    known = json.load(open(os.path.join(HERE, "known-findings.json"))) if os.path.exists(
        os.path.join(HERE, "known-findings.json")) else {"known": []}
    ks = {(k["property"], k["key"]) for k in known["known"]}
    real, printed = [], []
    for key, text in total.known + total.findings:
        listed = (pid, key) in ks and (key, text) in total.known or (pid, key) in {
            (k["property"], k["key"]) for k in known["known"] if k.get("match", "known_wrong") == "key"}
        (printed if listed else real).append((key, text))
    if hasattr(mod, "minimum"):
        need = mod.minimum(pid)
        if total.obligations < need:
            broken.append(("coverage", f"{total.obligations} obligations analysed, at least {need} expected"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "findings"), exist_ok=True)
    level = getattr(mod, "LEVEL", {}).get(pid, "other") if hasattr(mod, "LEVEL") else "other"
    cov = {
        "explanation": getattr(mod, "EXPLAIN", {}).get(pid, "") if hasattr(mod, "EXPLAIN") else "",
        "obligations": total.obligations, "discharged": total.proved,
        "undecided": len(total.undecided), "undecided_list": total.undecided[:40],
        "functions_analysed": len(total.functions), "counts": total.counts,
        "samples": total.samples[:6], "units": len(_UNITS),
        "slowest_units": [f"{l} {d:.1f}s" for d, l in sorted(slow, reverse=True)[:5]],
        "known_findings": [t for _, t in printed],
        "checker_cmd": f"python3 -m csa.run {pid}",
        "trusted_base": ["csa interpreter and normal form", "reference formulas in csa/ref", "CPython ast"],
    }
    if not cov["explanation"]:
        cov["explanation"] = (mod.__doc__ or "").strip()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {total.obligations} obligations, {total.proved} proved, {len(total.undecided)} undecided, "
          f"{len(real)} violations, {len(total.functions)} functions, {time.time() - t0:.1f}s")
    if verbose:
        for u in total.undecided[:(int(os.environ.get("CSA_U","5")))]:
            print("  undecided:", u)
        for d, l in sorted(slow, reverse=True)[:4]:
            print(f"  slow: {l} {d:.1f}s")
        print("  counts", total.counts)
    for k, t in printed:
        print(f"KNOWN-FINDING: property={pid} {t}")
    if real:
        path = os.path.join(HERE, "findings", f"{pid}.txt")
        with open(path, "w") as f:
            for k, t in real:
                f.write(f"{k}\n    {t}\n")
        for k, t in real[:20]:
            print(" ", t[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if broken:
        for l, e in broken[:10]:
            print("ANALYSIS-BROKEN", l, e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(30000)
    sys.exit(main(sys.argv[1:]))
