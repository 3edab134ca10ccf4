"""Run independent analysis units in parallel processes and merge their obligations."""
import multiprocessing as mp
import os
import sys
import traceback
from concurrent.futures import ProcessPoolExecutor
from core import Report
from ir import AnalysisError

sys.setrecursionlimit(20000)


def _job(a):
    fn, prop, tier, tmp, k, args = a
    rep = Report(prop, tier)
    d = os.path.join(tmp, "j%d" % k)
    os.makedirs(d, exist_ok=True)
    try:
        fn(rep, d, *args)
    except Exception as e:
        rep.undecided("analysis", "%s%r" % (fn.__name__, args), "%s: %s" % (type(e).__name__, str(e)[:1500]))
        rep.trace = traceback.format_exc()
    return rep


def pool(rep, tmp, jobs, procs=None):
    """jobs: [(function(report, tmp, *args), args)]"""
    todo = [(fn, rep.prop, rep.tier, tmp, k, args) for k, (fn, args) in enumerate(jobs)]
    n = procs or min(len(todo), os.cpu_count() or 4, 8)
    if n <= 1:
        res = [_job(t) for t in todo]
    else:
        res = []
        with ProcessPoolExecutor(n, mp_context=mp.get_context("fork")) as p:
            fs = [p.submit(_job, t) for t in todo]
            for t, f in zip(todo, fs):
                try:
                    res.append(f.result())
                except Exception as e:                   # a worker died
                    r = Report(rep.prop, rep.tier)
                    r.undecided("analysis", "%s%r" % (t[0].__name__, t[5]), "%s: %s" % (type(e).__name__, str(e)[:500]))
                    res.append(r)
    for r in res:
        rep.merge(r)
        if getattr(r, "trace", None) and os.environ.get("VH_TRACE"):
            print(r.trace)
