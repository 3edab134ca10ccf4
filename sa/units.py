"""Analysis units: which sources are compiled together, in which configuration, and the views of their functions."""
import os
import ir
import policy
import fview
from core import REPO
from ir import AnalysisError

HARN = os.path.join(ir.SA, "harness")
SRC = os.path.join(REPO, "source")


def build(tmp, name, srcs, defs=(), extra=(), atomic=policy.default, passes=None, opts=None):
    """compile + link + inline + SSA"""
    bcs = []
    for k, s in enumerate(srcs):
        out = os.path.join(tmp, "%s.%d.bc" % (name, k))
        ir.clang(s, out, REPO, defs, extra)
        bcs.append(out)
    ctx, mod = ir.link(bcs)
    kw = opts or {}
    at, rec = ir.prepare(mod, atomic, passes or ir.DEFAULT_PASSES, **kw)
    M = ir.load(mod)
    M.atomic, M.recursive = at, rec
    ir.DisposeCtx(ctx)
    for b in bcs:
        os.unlink(b)
    return M


def keep(*names):
    """policy: the library routines plus the named functions stay opaque"""
    def pol(n, d):
        return policy.default(n, d) or policy.qual(d).endswith(names)
    return pol


def fns_like(M, *suffix):
    return [f for f in M.fns.values() if not f.decl and policy.qual(f.dname).endswith(suffix) and ".omp_outlined" not in f.name]


def cfgs(tier):
    return [("debug", ()), ("release", ("NDEBUG",))]
