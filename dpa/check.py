"""python3-vt -m dpa.check <property> [--tier quick|thorough]

exit 0: the property holds on everything analysed (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the analysis could not give an answer (sources do not parse, anchors vanished)
obligations that could not be decided are listed as undecided, on the terminal and in the evidence
"""
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import report
from .frontend import AnalysisBroken

CTX = {}


def _run(task):
    f, args = task
    from .world import Broken
    from .interp import Wild
    report.Res.LIVE[:] = []
    try:
        return ("ok", dict(f(CTX["P"], CTX["tier"], *args)), None)
    except (Broken, AnalysisBroken) as e:
        return ("broken", "%s%r: %s" % (f.__name__, args, e), begun())
    except Wild as e:
        r = begun()
        at = getattr(e, "_at", "?")
        r["viol"].append({"key": "%s: %s" % (f.__name__, e), "where": at, "what": "%s, whatever the inputs, at %s" % (e, at)})
        return ("wild", "%s%r: %s" % (f.__name__, args, where(e)), r)
    except Exception as e:
        return ("crash", "%s%r: %s%s" % (f.__name__, args, where(e), traceback.format_exc(limit=-6)), begun())


def begun():
    """violations found by a task before it stopped (what it discharged is not counted)"""
    out = {}
    for r in report.Res.LIVE:
        for v in r["viol"]:
            out.setdefault(v["key"], v)
    return dict(report.Res(), viol=list(out.values()))


def where(e):
    """source construct at which the interpretation stopped"""
    return "%s: %s at %s; " % (type(e).__name__, e, getattr(e, "_at", "?"))


def run_tasks(tasks, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    if os.environ.get("DPA_SERIAL"):
        return [_run(t) for t in tasks]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(jobs, max(1, len(tasks)))) as p:
        return p.map(_run, tasks, 1)


def main(argv):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--only":
            only = argv[i + 1]
    from .rules import registry
    if pid not in registry.RULES:
        print("unknown property " + pid)
        return 2
    rule = registry.RULES[pid]
    mod = importlib.import_module("dpa.rules." + rule["module"])
    try:
        from .program import Program
        extra = getattr(mod, "EXTRA", None)
        if getattr(mod, "UNITS", None):
            CTX["P"] = P = Program(mod.UNITS)
        elif extra:
            from .frontend import all_units
            CTX["P"] = P = Program([u for u in all_units() if u != "levi"] + extra)
        else:
            CTX["P"] = P = Program()
        CTX["tier"] = tier
        tasks = mod.tasks(P, pid, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if only:
        tasks = [t for t in tasks if only in repr(t[1])]
    rs = run_tasks(tasks)
    broken = [x for k, x, r in rs if k != "ok"]
    res = report.merge([x for k, x, r in rs if k == "ok"] + [r for k, x, r in rs if k != "ok"])
    for b in broken:
        # one construct outside the analysed language leaves its own obligations undecided, not the others
        print("NOT-ANALYSED: " + b[:1500])
        res.undecided("not analysed: " + b[:300])
    if not res["viol"] and (not res["ok"] or 2 * len(broken) > len(rs)):
        print("ANALYSIS-BROKEN: most of the code could not be analysed")
        return 2
    return report.finish(pid, rule, res, t0, tier, rule["assumptions"])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
