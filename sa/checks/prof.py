"""C29: the profiling flag and measured times reach nothing but printed output.

The samplers are compiled without optimisation. Everything that depends on the flag of the constructor, by data or by control, is collected; what such
instructions write must not be read by others, and what they call must be output, a timer or free of effects.
"""
import os
import re
from checks import ghost
import ir
import policy
import units
from fview import where
from checks.ghost import cname, home, neutral
from ir import Arg, Const, Inst

R_USE = "a value that depends on profiling is passed to timers and output only"
R_CTRL = "statements executed only with (or without) profiling change nothing that others read, and rejoin"
RULES = (R_USE, R_CTRL)
PASS = ("load", "trunc", "zext", "sext", "icmp", "fcmp", "xor", "and", "or", "select", "phi", "add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "sdiv", "udiv", "srem", "urem", "shl",
        "lshr", "ashr", "uitofp", "sitofp", "fptosi", "fptoui", "fptrunc", "fpext", "gep", "bitcast", "freeze", "extractvalue", "insertvalue", "fneg")


def timer(n):
    return n is not None and re.search(r"(^|::)ScopedTimer::", policy.qual(ir.demangle(n))) is not None


def streams(n):
    return re.search(r"\b(basic_)?[iow]?(string|f)?stream\b|\bbasic_ios\b|\bios_base\b", ir.demangle(n)) is not None or n in ("printf", "fprintf", "puts", "fputs", "putchar", "fflush", "putc")


def clock(n):
    return n is not None and re.search(r"_clock::now$|^(clock_gettime|gettimeofday|clock|time|omp_get_wtime)$", policy.qual(ir.demangle(n))) is not None


def succs(b):
    t = b.insts[-1]
    if t.op == "unreachable":
        return []
    return b.succs[:1] if t.op == "invoke" else list(b.succs)


def pdoms(f):
    """block -> blocks passed on every way from it to the end; ways that end the program do not count"""
    all_ = frozenset(f.blocks)
    P = {b: all_ for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            s = succs(b)
            if b.insts[-1].op == "ret":
                n = frozenset([b])
            elif not s:
                n = all_
            else:
                n = frozenset.intersection(*[P[x] for x in s]) | {b}
            if n != P[b]:
                P[b] = n
                ch = True
    return P


class Flow:
    def __init__(self, M, rep, conf):
        self.M, self.rep, self.conf = M, rep, conf
        self.R = ghost.Roots(M)
        self.E = ghost.Effects(M, self.R)
        self.fs = [f for f in M.fns.values() if not f.decl and (home(f) or f.name.startswith("vh_"))]
        self.t = set()          # values (Inst, ("arg", f, k))
        self.mem = set()        # places
        self.rets = set()
        self.ctl = {}           # instruction -> branch it depends on
        self.pd = {}
        self.callers = {}
        for f in self.fs:
            for i in f.insts():
                n = cname(i) if i.op in ("call", "invoke") else None
                if n:
                    self.callers.setdefault(n, []).append((f, i))

    def tainted(self, o, f):
        if isinstance(o, Arg):
            return ("arg", f.name, o.i) in self.t
        return isinstance(o, Inst) and o in self.t

    def mark(self, S, x):
        if x not in S:
            S.add(x)
            self.ch = True

    def solve(self, seeds):
        self.t |= seeds
        self.ch = True
        while self.ch:
            self.ch = False
            for f in self.fs:
                if not timer(f.name):
                    self.step(f)

    def step(self, f):
        for i in f.insts():
            if i.op == "load":
                if self.R.of(i.ops[0], f) & self.mem or self.tainted(i.ops[0], f):
                    self.mark(self.t, i)
            elif i.op == "store":
                if self.tainted(i.ops[0], f) or i in self.ctl:
                    for r in self.R.of(i.ops[1], f):
                        if r[0] in ("local", "field"):
                            if not (i in self.ctl and not self.tainted(i.ops[0], f) and self.private(r, i)):
                                self.mark(self.mem, r)
            elif i.op in ("call", "invoke"):
                self.call(i, f)
            elif i.op == "ret":
                if any(self.tainted(o, f) for o in i.ops):
                    self.mark(self.rets, f.name)
            elif i.op in ("br", "switch"):
                if len(i.bb.succs) > 1 and self.tainted(i.ops[0], f):
                    self.region(i, f)
            elif i.op == "phi":
                if any(self.tainted(o, f) for o in i.ops) or len({b for b in i.x if b.insts[-1] in self.ctl}) > 0 and len(set(map(id, i.ops))) > 1:
                    self.mark(self.t, i)
            elif i.op in PASS and any(self.tainted(o, f) for o in i.ops):
                self.mark(self.t, i)

    def private(self, r, i):
        """a local that is used under the same branch only"""
        if r[0] != "local":
            return False
        br = self.ctl[i]
        return all(u in self.ctl or neutral(u) for u in r[2].users)

    def region(self, br, f):
        if f.name not in self.pd:
            self.pd[f.name] = pdoms(f)
        P = self.pd[f.name]
        stop = P[br.bb] - {br.bb}
        todo, seen = list(succs(br.bb)), set()
        while todo:
            b = todo.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            for j in b.insts:
                if j not in self.ctl:
                    self.ctl[j] = br
                    self.ch = True
            todo += succs(b)

    def call(self, i, f):
        n = cname(i)
        if n is None or timer(n):
            if n and policy.qual(ir.demangle(n)).split("::")[-1] in ("elapsed", "report"):
                self.mark(self.t, i)
            if n and ghost.ctor(i):
                for k, o in enumerate(i.ops[1:], 1):
                    if o.ty == "ptr" and not ghost.constref(i, k):
                        for r in self.R.of(o, f):
                            if r[0] in ("local", "field"):
                                self.mark(self.mem, r)
            return
        if clock(n):
            self.mark(self.t, i)
            return
        fork = n.startswith("__kmpc_fork")
        if fork:
            k0 = next((k for k, o in enumerate(i.ops) if isinstance(o, Const) and o.kind == "fn"), None)
            g, sh = (self.M.fns.get(i.ops[k0].v), k0 - 1) if k0 is not None else (None, 0)
        else:
            g, sh = self.M.fns.get(n), 0
        if g is not None and not g.decl and g in self.fs:
            for k, o in enumerate(i.ops):
                kk = k - sh
                if not 0 <= kk < len(g.args):
                    continue
                if self.tainted(o, f):
                    self.mark(self.t, ("arg", g.name, kk))
                if o.ty == "ptr" and {r for r in self.R.of(o, f)} & self.mem and self.local(o, f):
                    self.mark(self.mem, ("param", g.name, kk, False))
            if g.name in self.rets:
                self.mark(self.t, i)
        elif i.users and any(self.tainted(o, f) for o in i.ops) and not streams(n):
            self.mark(self.t, i)

    def local(self, o, f):
        return isinstance(self.R.base(o), Inst) and self.R.base(o).op == "alloca"

    # ---------------------------------------------------------------------------------------------- what dependent instructions may do
    def judge(self):
        G = set(self.ctl) | {x for x in self.t if isinstance(x, Inst)}
        inner = set()
        ch = True
        while ch:                                             # functions called under such branches only
            ch = False
            for f in self.fs:
                cs = self.callers.get(f.name)
                if f.name not in inner and cs and all(i in self.ctl or g.name in inner for g, i in cs):
                    inner.add(f.name)
                    ch = True
        tim = {f.name for f in self.M.fns.values() if timer(f.name)}
        # stores of the flag itself are judged by who reads it: only dependent instructions do
        reads = ghost.Reads(self.M, self.R, self.E, G, inner | tim)
        sites = {}
        for n, cs in self.callers.items():
            for f, i in cs:
                if n.startswith("__kmpc_fork"):
                    k0 = next((k for k, o in enumerate(i.ops) if isinstance(o, Const) and o.kind == "fn"), None)
                    if k0 is not None:
                        sites.setdefault(i.ops[k0].v, []).append((f, i, k0 - 1))
                else:
                    sites.setdefault(n, []).append((f, i, 0))
        n = 0
        for f in self.fs:
            if timer(f.name) or f.name in inner:
                continue
            good, seen, bad, und = True, 0, None, None
            for i in f.insts():
                dep = [o for o in i.ops if self.tainted(o, f)]
                if i not in self.ctl and not dep:
                    continue
                if neutral(i):
                    continue
                seen += 1
                n += 1
                b = self.one(i, f, dep, reads, sites)
                if b and b[0] == "bad":
                    bad = bad or (i, b)
                elif b:
                    und = und or (i, b)
            for x, g in ((bad, self.rep.bad), (und if not bad else None, None)):
                if x is None:
                    continue
                good = False
                rule = R_CTRL if x[0] in self.ctl else R_USE
                if g:
                    g(rule, where(x[0]), "%s: %s" % (policy.qual(f.dname), x[1][1]), None, self.conf)
                else:
                    self.rep.undecided(rule, where(x[0]), "%s: %s" % (policy.qual(f.dname), x[1][1]), self.conf)
            if seen and good:
                self.rep.ok(R_USE, f.dname[:80], "%d dependent instructions" % seen, self.conf)
        return n

    def one(self, i, f, dep, reads, sites):
        how = "the flag or a measured time" if dep else "profiling"
        if i.op in PASS or i.op in ("br", "switch", "alloca", "unreachable", "landingpad", "resume"):
            return None
        if i.op == "ret":
            if i in self.ctl:
                return ("bad", "returns only with or without profiling")
            if f.name in self.callers or not i.ops:
                return None
            return ("bad", "the result depends on %s" % how)
        if i.op in ("call", "invoke"):
            n = cname(i)
            if n is None:
                return ("undecided", "call through a pointer depends on " + how)
            if timer(n) or clock(n) or streams(n) or ghost.PURE.match(n) or n.startswith(("llvm.lifetime", "llvm.dbg")) or n in ghost.STOP:
                return None
            if i in self.ctl or not self.known(n):
                if i not in self.ctl and n.startswith("__kmpc_fork"):
                    return None
                w, e = self.E.writes(i, f)
                if n.startswith("vh_"):
                    return ("bad", "the call-back depends on " + how)
                ds = {x for x in e if not x.startswith(("__kmpc_global", "__cxa_", "_ZSt")) and not streams(x)}
                if i not in self.ctl:
                    ds.discard("a call through a pointer")
                if ds:
                    x = sorted(ds)[0]
                    return ("bad" if x.startswith(("__kmpc", "omp_", "vh_", "exit")) else "undecided", "%s depends on %s" % (ir.demangle(x)[:80], how))
                for r in w:
                    b = ghost.judge(r, f, reads, sites, set()) if r[0] not in ("fresh",) else None
                    if r[0] == "local" and i in self.ctl and self.private(r, i):
                        continue
                    if b:
                        return ("bad", "%s depends on %s and writes %s, which is read at %s" % (policy.qual(ir.demangle(n))[:60], how, ghost.show(r), b))
            return None
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            p = i.ops[1] if i.op == "store" else i.ops[0]
            for r in self.R.of(p, f):
                if r[0] == "fresh" or r in self.mem and i.op == "store":
                    continue
                if r[0] == "local" and i in self.ctl and self.private(r, i):
                    continue
                b = ghost.judge(r, f, reads, sites, set())
                if b:
                    return ("bad", "a store to %s, read at %s, depends on %s" % (ghost.show(r), b, how))
            return None
        return None

    def known(self, n):
        g = self.M.fns.get(n)
        return g is not None and not g.decl and g in self.fs


def c29(rep, tmp, conf, defs, lib):
    d = units.SRC + "/" + lib + "/source"
    srcs = [units.HARN + ("/girg_tree.cpp" if lib == "girgs" else "/hrg_tree.cpp")] + [d + "/" + x for x in sorted(os.listdir(d)) if x.endswith((".cpp", ".cc", ".cxx"))]
    M = ghost.load(tmp, "prof_" + lib, srcs, list(defs) + (["VH_D=2"] if lib == "girgs" else []), ["-fopenmp"])
    rep.unit("%s: sampler with profiling flag [%s]" % (lib, " ".join(defs) or "debug"))
    ctor = [f for f in M.fns.values() if not f.decl and re.match(r"vh_(girg|hrg)_ctor", f.name)]
    if not ctor:
        raise ir.AnalysisError("no constructor with a profiling flag")
    F = Flow(M, rep, conf)
    F.solve({("arg", f.name, f.args[-1].i) for f in ctor})
    n = F.judge()
    rep.count("instructions that depend on the profiling flag", n)
    if os.environ.get("VH_DBG"):
        for f in F.fs:
            for i in f.insts():
                if i in F.ctl or any(F.tainted(o, f) for o in i.ops):
                    print("   ", where(i), i.op, (cname(i) or "")[:60] if i.op in ("call", "invoke") else "", "ctl" if i in F.ctl else "")
        print(F.mem)
