"""C02: no data races inside the parallel regions.

For every parallel region of the library (outlined by the compiler, -fopenmp) and everything it calls, the memory accesses are
collected as address terms over the region's captured variables, the thread number, the team size and the loop counters. Two
accesses can run at the same time if a point of the region exists (its start or a barrier) from which both are reached without
a barrier in between. For small teams the addresses are enumerated from these closed forms; a byte that one thread writes and
another one touches at the same time, without a common lock, atomic operations, a common single-thread construct or a
hand-off through a locked flag, is a data race.
"""
import bdd
import fview
import ir
import policy
import rnd
import strs
import terms
import units
from effects import CONSTM, SORTS, READS
from ir import AnalysisError, Const, Inst
from terms import P, Poly, atom

TID, TEAM = ("tid",), ("team",)
SYNC = ("mutex::lock", "mutex::unlock", "mutex::try_lock", "condition_variable::notify_all", "condition_variable::notify_one", "condition_variable::wait")
UNSAFE = ("rand", "srand", "random", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "setlocale", "getenv", "strerror")
OMPQ = ("omp_get", "__kmpc", "omp_set", "omp_in")
MAXK = 24


def call_name(i):
    return i.x.v if i.op in ("call", "invoke") and getattr(i.x, "kind", None) == "fn" else None


class Acc:
    __slots__ = ("view", "inst", "block", "w", "addr", "size", "atomic", "locks", "what", "pos", "roles", "fn")

    def where(self):
        return self.view.where(self.inst)


class Unit:
    """views and raw accesses of the functions of one module"""

    def __init__(self, M):
        self.M = M
        self.views, self.raw, self.ls = {}, {}, {}
        self.ps, self.cs = {}, {}
        self.ptr = set()                     # atoms of loaded pointers

    def view(self, f):
        v = self.views.get(f.name)
        if v is None:
            v = self.views[f.name] = fview.FView(f)
        return v

    def num(self, v, o, b):
        if o.ty == "i1":
            return None
        try:
            t = v.num(v.at(o, b))
            if isinstance(t, Poly) and o.ty == "ptr" and t.atom() is not None and t.atom()[0] in ("ld", "ldx", "arg"):
                self.ptr.add(t.atom())
            return t if isinstance(t, Poly) else None
        except (AnalysisError, KeyError, AttributeError, ZeroDivisionError):
            return None

    def user(self, n):
        """defined here and not a library routine"""
        g = self.M.fns.get(n)
        if g is None or g.decl:
            return None
        q = policy.qual(ir.demangle(n))
        return None if q.startswith(("std::", "__gnu", "operator", "__clang")) else g

    # -------------------------------------------------------------------------------- raw accesses of one function
    def accesses(self, f):
        r = self.raw.get(f.name)
        if r is not None:
            return r
        v = self.view(f)
        out, calls = [], []
        lock = self.locks(f)
        for b in v.rpo:
            for i in b.insts:
                if i.op in ("load", "store"):
                    a = self.num(v, i.ops[0 if i.op == "load" else 1], b)
                    if i.op == "load":
                        self.num(v, i, b)
                    if a is not None:
                        out.append((i, b, i.op == "store", a, i.x["size"], i.x["atomic"], lock[i], i.op))
                elif i.op in ("atomicrmw", "cmpxchg"):
                    a = self.num(v, i.ops[0], b)
                    if a is not None:
                        out.append((i, b, True, a, 8, True, lock[i], i.op))
                elif i.op in ("call", "invoke"):
                    n = call_name(i)
                    if n is None:
                        continue
                    if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                        s = self.num(v, i.ops[2], b)
                        s = int(s.const()) if s is not None and s.const() is not None else 8
                        a = self.num(v, i.ops[0], b)
                        if a is not None:
                            out.append((i, b, True, a, s, False, lock[i], n.split(".")[1]))
                        if "memset" not in n:
                            a = self.num(v, i.ops[1], b)
                            if a is not None:
                                out.append((i, b, False, a, s, False, lock[i], n.split(".")[1]))
                        continue
                    if n.startswith("llvm.") or n.startswith(OMPQ):
                        continue
                    if self.user(n) is not None:
                        calls.append((i, b, self.user(n), [self.num(v, o, b) for o in i.ops], lock[i]))
                        continue
                    for k, w, s in self.effects(n, i):
                        a = self.num(v, i.ops[k], b)
                        if a is not None:
                            out.append((i, b, w, a, s, policy.qual(ir.demangle(n)).startswith(("std::atomic", "std::__atomic")), lock[i], policy.qual(ir.demangle(n))))
        self.raw[f.name] = out, calls
        return out, calls

    # -------------------------------------------------------------------------------- who made the objects
    def ptrstores(self, f, depth=4):
        """addresses of objects that f (or a callee) stores into other objects: [(where, what)]"""
        r = self.ps.get(f.name)
        if r is not None:
            return r
        self.ps[f.name] = []
        v = self.view(f)
        out = []
        for b in v.rpo:
            for i in b.insts:
                if i.op == "store" and i.ops[0].ty == "ptr":
                    a, t = self.num(v, i.ops[1], b), self.num(v, i.ops[0], b)
                    if a is not None and t is not None and t.const() is None and all(x[0] in ("alloca", "arg") for x in terms.atoms_of(t)):
                        out.append((a, t))
        if depth:
            for i, b, g, args, lk in self.accesses(f)[1]:
                gv = self.view(g)
                bind = {}
                for k, a in enumerate(args):
                    ga = gv.term(g.args[k]).atom() if k < len(g.args) and isinstance(gv.term(g.args[k]), Poly) else None
                    if ga is not None and a is not None:
                        bind[ga] = a
                for a, t in self.ptrstores(g, depth - 1):
                    a, t = sub(a, bind), sub(t, bind)
                    if all(x[0] in ("alloca", "arg", "ld") for x in terms.atoms_of(a)) and not any(x[0] in ("alloca", "arg") and x[1] == gv.sid for x in terms.atoms_of(a) | terms.atoms_of(t)):
                        out.append((a, t))
        self.ps[f.name] = out
        return out

    def origin(self, f, i, g):
        """captured variables of a region -> the objects of the functions that start it; and what these objects point to"""
        gv, v = self.view(g), self.view(f)
        ops = [o for o in i.ops if not (isinstance(o, Const) and o.kind == "fn")][2:]
        bind, ints = {}, {}
        st = {}
        for b in v.rpo:
            for j in b.insts:
                if j.op == "store":
                    a = self.num(v, j.ops[1], b)
                    if a is not None:
                        st.setdefault(a, []).append((j, b))
        for k, o in enumerate(ops):
            if k + 2 < len(g.args):
                ga, t = gv.term(g.args[k + 2]).atom() if isinstance(gv.term(g.args[k + 2]), Poly) else None, self.num(v, o, i.bb)
                if ga is None or t is None:
                    continue
                if o.ty != "ptr":
                    ints[ga] = t
                elif len(st.get(t, ())) == 1 and st[t][0][0].ops[0].ty.startswith("i"):
                    x = self.num(v, st[t][0][0].ops[0], st[t][0][1])
                    if x is not None:
                        ints[("ld", P(atom(ga)) if not isinstance(atom(ga), Poly) else atom(ga))] = x
            if k + 2 < len(g.args) and o.ty == "ptr":
                ga, t = gv.term(g.args[k + 2]).atom(), self.num(v, o, i.bb)
                if ga is not None and t is not None and all(x[0] in ("alloca", "arg", "ld") for x in terms.atoms_of(t)):
                    bind[ga] = t
        cells = list(self.ptrstores(f))
        for _ in range(4):
            sites = [(h, s) for h in self.M.fns.values() if not h.decl for s in self.calls_of(h) if call_name(s) == f.name]
            if len(sites) != 1:
                break
            h, s = sites[0]
            hv = self.view(h)
            up = {}
            for k, o in enumerate(s.ops):
                if k < len(f.args) and isinstance(v.term(f.args[k]), Poly):
                    fa, t = v.term(f.args[k]).atom(), self.num(hv, o, s.bb)
                    if fa is not None and t is not None:
                        up[fa] = t
            bind = {a: sub(t, up) for a, t in bind.items()}
            cells = [(sub(a, up), sub(t, up)) for a, t in cells] + [c for c in self.ptrstores(h)]
            f, v = h, hv
        m = {}
        for a, t in cells:
            m.setdefault(a, set()).add(t)
        return bind, {a: next(iter(s)) for a, s in m.items() if len(s) == 1}, ints

    def calls_of(self, h):
        r = self.cs.get(h.name)
        if r is None:
            r = self.cs[h.name] = [i for i in h.insts() if i.op in ("call", "invoke") and call_name(i) in self.M.fns]
        return r

    def effects(self, n, i):
        """what an opaque library routine does with its pointer arguments: (argument, writes, size)"""
        d = ir.demangle(n)
        q = policy.qual(d)
        if q.endswith(SYNC) or q.startswith(("operator new", "operator delete", "__cxa", "std::__throw", "std::operator<<", "std::basic_ostream", "__clang")):
            return
        op = q.split("::")[-1]
        cls = q.split("::")[-2] if "::" in q else ""
        ps = strs.params(d)
        const = d.rstrip().endswith(" const")
        member = len(i.ops) == len(ps) + 1
        size = 24 if cls in ("vector", "_Vector_base") else 8
        if member and i.ops[0].ty == "ptr":
            if op == cls or op.startswith("~"):
                yield 0, True, size
            elif const or op in CONSTM or op.lstrip("c").lstrip("r") in ("begin", "end"):
                yield 0, False, size
            else:
                yield 0, True, size
        for k, p in enumerate(ps):
            j = k + (1 if member else 0)
            if j >= len(i.ops) or i.ops[j].ty != "ptr":
                continue
            if "iterator" in p and "&" not in p or p.endswith("*"):
                yield j, op in SORTS and "const*" not in p, 8
            elif p.endswith("const&") or "const&" in p[-8:]:
                yield j, False, 8
            elif p.endswith("&&"):
                yield j, not ("vector" == cls and op in ("emplace_back", "push_back")) and False, 8
            elif p.endswith("&"):
                yield j, "ostream" not in p and op not in READS, 8

    def locks(self, f):
        """inst -> locks certainly held: forward must analysis. A lock is ("m", address term) or ("n", name)"""
        v = self.view(f)
        ent = {b: None for b in v.rpo}
        ent[v.rpo[0]] = frozenset()
        at = {}
        ch = True
        while ch:
            ch = False
            for b in v.rpo:
                cur = ent[b]
                if cur is None:
                    continue
                for i in b.insts:
                    at[i] = cur
                    n = call_name(i)
                    if n is None:
                        continue
                    q = policy.qual(ir.demangle(n))
                    if n.startswith(("__kmpc_critical", "__kmpc_end_critical")):
                        o = i.ops[2]
                        k = ("n", str(getattr(o, "v", "?")))
                        cur = cur | {k} if "end" not in n else cur - {k}
                    elif n.startswith("__kmpc_reduce"):
                        cur = cur | {("n", "reduce")}
                    elif n.startswith("__kmpc_end_reduce"):
                        cur = cur - {("n", "reduce")}
                    elif q.endswith("mutex::lock") or n == "pthread_mutex_lock" or n == "omp_set_lock":
                        t = self.num(v, i.ops[0], b)
                        if t is not None:
                            cur = cur | {("m", t)}
                    elif q.endswith(("lock_guard::lock_guard", "unique_lock::unique_lock", "unique_lock::lock", "scoped_lock::scoped_lock")):
                        t = self.num(v, i.ops[-1], b)
                        if t is not None:
                            cur = cur | {("m", t)}
                    elif q.endswith(("mutex::unlock", "lock_guard::~lock_guard", "unique_lock::~unique_lock", "unique_lock::unlock", "scoped_lock::~scoped_lock")) or n in ("pthread_mutex_unlock", "omp_unset_lock"):
                        t = self.num(v, i.ops[0], b)
                        cur = cur - {("m", t)} if ("m", t) in cur else frozenset(x for x in cur if x[0] != "m")
                for s in v.succ[b]:
                    new = cur if ent.get(s) is None else ent[s] & cur
                    if s in ent and ent[s] != new:
                        ent[s] = new
                        ch = True
        for b in v.rpo:
            for i in b.insts:
                at.setdefault(i, frozenset())
        return at


def sub(t, bind):
    """own arguments of a function -> terms of the region"""
    if t is None or not bind:
        return t
    return terms.subst(t, lambda a: bind.get(a) if a[0] == "arg" else None)


class Region:
    def __init__(self, U, f, fork=None):
        self.U, self.f = U, f
        self.v = U.view(f)
        self.acc = []
        self.fns = [f]
        self.priv = set()                 # argument atoms of callees bound to private or per-thread memory
        self.ws = {}                      # K atom -> loop (worksharing)
        self.lb = set()
        U.accesses(f)
        self.tick = {a for a, (L, i, n, p) in self.v.recur.items() if all(isinstance(t, Poly) and t.atom() is not None and t.atom()[0] == "rmw" for t in (i, n))}
        self.worksharing(f)
        self.collect()
        self.segments()
        self.f_res, self.f_int, self.roots, self.ints = (lambda t: t), (lambda t: t), {}, {}
        if fork is not None:
            self.rename(*U.origin(fork[0], fork[1], f))

    # -------------------------------------------------------------------------------- worksharing loops
    def worksharing(self, f):
        v = self.U.view(f)
        lbs = {}
        for b in v.rpo:
            for i in b.insts:
                n = call_name(i) or ""
                if n.startswith("__kmpc_for_static_init"):
                    s = i.ops[2]
                    lbs[i.ops[4]] = (i, "static")
                elif n.startswith("__kmpc_dispatch_next"):
                    lbs[i.ops[3]] = (i, "dynamic")
        for L in v.loops.values():
            for i in L.h.insts:
                if i.op != "phi":
                    break
                for o in i.ops:
                    if isinstance(o, Inst) and o.op == "load" and o.ops[0] in lbs:
                        self.ws[L.K.atom()] = (L, lbs[o.ops[0]])
                        t = self.U.num(v, o, o.bb)
                        if lbs[o.ops[0]][1] == "dynamic" and t is not None and t.atom() is not None:
                            self.lb.add(t.atom())

    # -------------------------------------------------------------------------------- collection
    def collect(self):
        U = self.U
        binds = {self.f.name: {}}
        ctx = {self.f.name: (None, None)}                    # name -> (positions in the region function, locks at entry)
        order = [self.f]
        sites = {}                                           # callee -> list of (binding per argument, locks)
        work = [self.f]
        rounds = 0
        while work and rounds < 400:
            rounds += 1
            f = work.pop()
            v = U.view(f)
            bind = binds[f.name]
            for i, b, g, args, lk in U.accesses(f)[1]:
                pos = {(b, i)} if f is self.f else ctx[f.name][0]
                lk = frozenset((x[0], sub(x[1], bind) if x[0] == "m" else x[1]) for x in lk) | (ctx[f.name][1] or frozenset())
                gv = U.view(g)
                nb = dict(binds.get(g.name, {}))
                old = dict(nb)
                first = g.name not in binds
                for k, a in enumerate(args):
                    if k >= len(g.args):
                        break
                    ga = gv.term(g.args[k]).atom() if isinstance(gv.term(g.args[k]), Poly) else None
                    if ga is None:
                        continue
                    t = sub(a, bind)
                    if t is not None and t.atom() == ga:      # passed on unchanged
                        continue
                    if g.name == f.name and t is None:
                        continue
                    if self.private(t):
                        t = atom(("own", g.name, k))
                    elif t is None or any(x[0] in OPAQ or x[0] == "arg" and x[1] != self.v.sid for x in terms.atoms_of(t)):
                        t = atom(("unk", g.name, k))
                    elif any(x[0] == "k" for x in terms.atoms_of(t)):
                        t = atom(("any", g.name, k)) if a.atom() is None or ga in self.U.ptr or g.args[k].ty == "ptr" else atom(("unk", g.name, k))
                    if ga not in nb:
                        nb[ga] = t
                    elif nb[ga] != t:
                        x = {nb[ga].atom() and nb[ga].atom()[0], t.atom() and t.atom()[0]}
                        nb[ga] = atom(("unk" if "unk" in x else "any", g.name, k))
                npos = (ctx[g.name][0] | pos) if not first else set(pos)
                nlk = lk if first else (ctx[g.name][1] & lk)
                if first or nb != old or npos != ctx[g.name][0] or nlk != ctx[g.name][1]:
                    binds[g.name], ctx[g.name] = nb, (npos, nlk)
                    if first:
                        order.append(g)
                    work.append(g)
        self.fns, self.binds, self.ctx = order, binds, ctx
        self.lockuse = []
        for f in order:
            v = U.view(f)
            bind = binds[f.name]
            lk = U.locks(f)
            for b in v.rpo:
                for i in b.insts:
                    if acquire(i) in ("lock", "critical"):
                        l = lock_of(U, v, i)
                        if l is None:
                            continue
                        r = lambda x: (x[0], sub(x[1], bind) if x[0] == "m" else x[1])
                        self.lockuse.append((r(l), frozenset(map(r, lk[i])) | (ctx[f.name][1] or frozenset()), v.where(i), f))
        for f in order:
            v = U.view(f)
            bind = binds[f.name]
            for i, b, w, a, s, at, lk, what in U.accesses(f)[0]:
                x = Acc()
                x.view, x.inst, x.block, x.w, x.size, x.atomic, x.what, x.fn = v, i, b, w, s, at, what, f
                x.addr = sub(a, bind)
                for z in list(terms.atoms_of(a)) if bind else ():
                    if z in U.ptr:
                        z = sub(atom(z), bind).atom()
                        if z is not None and z[0] in ("ld", "ldx"):
                            U.ptr.add(z)
                x.locks = frozenset((y[0], sub(y[1], bind) if y[0] == "m" else y[1]) for y in lk) | (ctx[f.name][1] or frozenset())
                x.locks = frozenset(y for y in x.locks if y[0] == "n" or not self.private(y[1]))
                x.pos = {(b, i)} if f is self.f else ctx[f.name][0]
                self.acc.append(x)
            # pointers to shared objects handed to other functions: the callee works on them as its own
            for i, b, g, args, lk in U.accesses(f)[1]:
                gv = U.view(g)
                for k, a in enumerate(args):
                    t = sub(a, bind)
                    if t is None or k >= len(g.args) or g.args[k].ty != "ptr" or not self.private(t) or not self.picked(t):
                        continue
                    ga = gv.term(g.args[k]).atom()
                    wr = any(y[2] and ga in terms.atoms_of(y[3], deep=False) or y[2] and ga in terms.atoms_of(y[3]) for y in U.accesses(g)[0]) or bool(U.accesses(g)[1])
                    x = Acc()
                    x.view, x.inst, x.block, x.w, x.size, x.atomic, x.what, x.fn = v, i, b, wr, 8, False, "passed to " + policy.qual(g.dname).split("::")[-1], f
                    x.addr, x.locks, x.pos = t, frozenset(), {(b, i)} if f is self.f else ctx[f.name][0]
                    self.acc.append(x)

    def rename(self, bind, cells, ints):
        self.ints = ints
        self.f_int = lambda t: terms.subst(t, lambda a: ints.get(a))
        loc = {a for x in self.acc if x.addr is not None for a in terms.atoms_of(x.addr) if a[0] == "alloca"}
        hide = {a: atom(("local",) + a[1:]) for a in loc}
        f = lambda t: resolve(terms.subst(t, lambda a: hide.get(a)), bind, cells) if t is not None else None
        for x in self.acc:
            x.locks = frozenset((y[0], f(y[1]) if y[0] == "m" else y[1]) for y in x.locks)
        self.f_res = f

    def root(self, x):
        """the object the address of x is in: (its base, offset of the pointer into it), index"""
        c = base_of(self, x.addr)[0]
        if c not in self.roots:
            t = self.f_res(atom(c))
            r, o = c, 0
            if t is not None and t.atom() != c:
                ks = [next(iter(m))[0] for m, k in t.t.items() if k == 1 and len(m) == 1 and next(iter(m))[1] == 1]
                if len(ks) == 1 and (t - atom(ks[0])).const() is not None:
                    r, o = ks[0], int((t - atom(ks[0])).const())
            self.roots[c] = r, o
        return self.roots[c] + (x.addr - atom(c),)

    def threaded(self, t, deep=True):
        """does the address depend on the thread, on a worksharing index or on a ticket"""
        return any(a in (TID,) or a in self.ws or a in self.lb or a in self.tick or a[0] == "rmw" for a in terms.atoms_of(t, deep=deep))

    def picked(self, t):
        """the index itself (not the contents of a table) depends on the thread"""
        todo, hit = [a for a in terms.atoms_of(t, deep=False)], False
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen or a[0] in ("ld", "ldx"):
                continue
            seen.add(a)
            if a == TID or a in self.ws or a in self.lb or a in self.tick or a[0] == "rmw":
                return True
            for x in a[1:]:
                if isinstance(x, Poly):
                    todo += list(terms.atoms_of(x, deep=False))
        return hit

    def private(self, t):
        """certainly memory of one thread: local objects, and elements picked by the thread"""
        if t is None:
            return False
        flat = terms.atoms_of(t, deep=False)
        if any(a[0] in ("alloca", "own") for a in terms.atoms_of(t)):
            return True
        if any(a[0] == "call" for a in flat):
            return True                                       # new, or the result of a library routine: not judged
        return self.threaded(t)

    # -------------------------------------------------------------------------------- barriers
    def segments(self):
        """point -> instructions of the region function reached without a barrier"""
        v = self.v
        starts = [(v.rpo[0], 0)]
        for b in v.rpo:
            for k, i in enumerate(b.insts):
                if (call_name(i) or "").startswith(("__kmpc_barrier", "__kmpc_cancel_barrier", "__kmpc_reduce")) and "nowait" not in (call_name(i) or ""):
                    starts.append((b, k + 1))
        self.seg = []
        for s in starts:
            seen, todo = set(), [s]
            vis = set()
            while todo:
                b, k = todo.pop()
                if (b, k) in vis:
                    continue
                vis.add((b, k))
                stop = False
                for i in b.insts[k:]:
                    n = call_name(i) or ""
                    seen.add(i)
                    if n.startswith(("__kmpc_barrier", "__kmpc_cancel_barrier")):
                        stop = True
                        break
                if not stop:
                    for t in v.succ[b]:
                        if not self.lonely(b, t):
                            todo.append((t, 0))
            self.seg.append(seen)

    def lonely(self, b, s):
        """edge taken only by a team of one thread"""
        c = self.v.edge_cond(b, s)
        if c is bdd.T:
            return False
        sup = bdd.support(c)
        pure = [l for l in sup if isinstance(l[1], Poly) and TEAM in terms.atoms_of(l[1]) and terms.atoms_of(l[1]) <= {TEAM, TID}]
        if not pure:
            return False
        c = bdd.exists(c, [l for l in sup if l not in pure])
        for team in (2, 3, 5):
            for tid in range(team):
                m = rnd.Model(1, lambda a, u, m: float(team) if a == TEAM else float(tid) if a == TID else None, exact=True)
                try:
                    if m.bdd(c):
                        return False
                except rnd.Undef:
                    return False
        return True

    def together(self, x, y):
        return any(any(p[1] in s for p in x.pos) and any(p[1] in s for p in y.pos) for s in self.seg)

    def only(self, c, s):
        """blocks reached through the edge c -> s alone"""
        v = self.v
        seen, todo = set(), [v.rpo[0]]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo += [t for t in v.succ[b] if not (b is c and t is s)]
        return set(v.rpo) - seen

    def singles(self):
        """single / master constructs: (call, blocks executed by the chosen thread)"""
        r = getattr(self, "_singles", None)
        if r is None:
            r = self._singles = []
            for c in self.v.rpo:
                for j in c.insts:
                    if (call_name(j) or "").startswith(("__kmpc_single", "__kmpc_master", "__kmpc_masked")):
                        for s in self.v.succ[c]:
                            d = self.only(c, s)
                            if any(self.is_end(k) for z in d for k in z.insts):
                                r.append((j, d))
        return r

    def self_single(self, x):
        """single / master constructs this access lies in"""
        out = None
        for b, i in x.pos:
            cur = {j for j, d in self.singles() if b in d}
            out = cur if out is None else out & cur
        return frozenset(out or ())

    @staticmethod
    def is_end(i):
        return (call_name(i) or "").startswith(("__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked"))


# ------------------------------------------------------------------------------------------------- enumeration
class Events:
    """accesses of one region, enumerated for one team size and one choice of the opaque numbers"""

    def __init__(self, R, team, seed):
        self.R, self.team, self.seed = R, team, seed
        self.ptr = R.U.ptr

    def dom(self, env):
        team, ptr, R = self.team, self.ptr, self.R

        def f(a, u, m):
            if a in env:
                return float(env[a])
            if a == TEAM:
                return float(team)
            if a in R.lb:
                return 0.0
            if a[0] == "maxthreads":
                return float(team + int(3 * m.rnd("maxthreads")))
            if u is None:
                if a in ptr:
                    x = m.draw(a)
                    return 20160.0 * int(1 + 4000 * x)
                return None
            if a[0] in ("arg", "any", "g", "shared"):
                return 20160.0 * int(1 + 4000 * u)
            return float(int(1 + 40 * u))
        return f

    def model(self, env):
        return rnd.Model(self.seed, self.dom(env), exact=True)

    def blocks(self, v, b, env, role):
        """assignments of the loop counters under which the block may run"""
        R = self.R
        out = [dict(env)]
        need = set(role) if role is not None else None
        Ls = list(v.loops_of(b))
        if need is not None:                                   # counters the address depends on, and those their loops depend on
            ch = True
            while ch:
                ch = False
                for L in Ls:
                    if L.K.atom() in need and v.trip(L) is not None:
                        d = terms.atoms_of(v.trip(L))
                        if not d <= need:
                            need |= d
                            ch = True
        for L in Ls:
            if need is not None and L.K.atom() not in need and L.K.atom() not in R.ws:
                continue
            n = v.trip(L)
            new = []
            for e in out:
                ks = None
                if n is not None:
                    try:
                        c = round(self.model(e).poly(n))
                        ks = list(range(max(0, c)))
                    except (rnd.Undef, OverflowError, ValueError, ZeroDivisionError):
                        ks = None
                if ks is None:
                    ks = self.while_(v, L, e)
                elif len(ks) > MAXK:
                    ks = ks[:4] + ks[len(ks) // 2:len(ks) // 2 + 2] + ks[-4:]
                for k in ks:
                    x = dict(e)
                    x[L.K.atom()] = k
                    new.append(x)
            out = new[:600]
        return out

    def while_(self, v, L, env):
        """counters of a loop without a closed form of its trip count: as long as the condition in its head holds"""
        ins = [s for s in v.succ[L.h] if L.h in v.succ and s in L.body]
        if len(v.succ[L.h]) < 2 or len(ins) != 1:
            return [0, 1, 2]
        c = v.edge_cond(L.h, ins[0])
        k = L.K.atom()
        for l in bdd.support(c):
            if not isinstance(l[1], Poly) or any(a[0] in OPAQ or a[0] in ("ld", "ldx", "rmw") and k in terms.atoms_of(atom(a)) for a in terms.atoms_of(l[1])):
                return [0, 1, 2]
        out = []
        try:
            for x in range(64):
                e = dict(env)
                e[k] = x
                if not self.model(e).bdd(c):
                    break
                out.append(x)
        except (rnd.Undef, OverflowError, ValueError, ZeroDivisionError):
            return [0, 1, 2]
        return out

    def may(self, v, b, env):
        """guards that depend on the thread number"""
        for L, c in v.guards(b):
            s = [l for l in bdd.support(c) if isinstance(l[1], Poly) and TID in terms.atoms_of(l[1])]
            if not s:
                continue
            other = [l for l in bdd.support(c) if l not in s]
            c = bdd.exists(c, other)
            try:
                if not self.model(env).bdd(c):
                    return False
            except rnd.Undef:
                pass
        return True

    def of(self, x):
        """(label of the thread, address) of one access; None: not understood"""
        R, v = self.R, self.R.v
        out = []
        off, idx = R.root(x)[1:]
        ratoms = [a for a in terms.atoms_of(x.addr) if a[0] == "rmw" or a in R.tick]
        top = x.fn is R.f
        flat = terms.atoms_of(x.addr)
        poss = [x.block] if top else sorted({b for b, i in x.pos}, key=lambda b: b.id)
        for tid in range(self.team):
            base = {TID: tid}
            for pb in poss:
                for e in (self.blocks(v, pb, base, flat) if top else [base]):
                    if not self.may(v, pb, e):
                        continue
                    es = [e] if top else self.blocks(x.view, x.block, e, flat)
                    for e2 in es:
                        wsl = [(k, e2[k]) for k in e2 if k in R.ws]
                        for r in (range(3) if ratoms else (None,)):
                            if r is not None:
                                for a in ratoms:
                                    e2[a] = r
                            label = ("r", r) if r is not None else ("w", wsl[0][1]) if wsl else ("t", tid)
                            try:
                                out.append((label, off + round(self.model(e2).poly(idx))))
                            except (rnd.Undef, OverflowError, ValueError, ZeroDivisionError):
                                pass
        return out


def resolve(t, bind, cells):
    """captured objects by what they are: two names of one object become one"""
    if t is None:
        return None
    t = sub(t, bind)
    for _ in range(8):
        n = terms.subst(t, lambda a: cells.get(a[1]) if a[0] == "ld" and isinstance(a[1], Poly) else None)
        if n == t:
            break
        t = n
    return terms.subst(t, lambda a: atom(("shared",) + a[1:]) if a[0] == "alloca" else None)


def base_of(R, t):
    """pointer the address starts from"""
    c = [m for m, k in t.t.items() if k == 1 and len(m) == 1 and next(iter(m))[1] == 1]
    cand = [next(iter(m))[0] for m in c]
    cand = [a for a in cand if a in R.U.ptr or a[0] in ("arg", "g", "shared", "any", "own", "alloca", "call", "phi", "fin", "opt", "ldx")]
    return cand


def same(R, x, y):
    """do two accesses start at the same address"""
    if x.addr == y.addr:
        return True
    if x.addr is None or y.addr is None or not base_of(R, x.addr) or not base_of(R, y.addr):
        return False
    a, b = R.root(x), R.root(y)
    return a[0] == b[0] and a[2] + P(a[1]) == b[2] + P(b[1])


OPAQ = ("local", "unk", "phi", "fin", "opt", "ldx", "call", "own", "alloca", "kx", "cmp")


def judged(R, x):
    """the address is a shared base plus an index made of thread number, loop counters and numbers common to all threads"""
    at = terms.atoms_of(x.addr)
    if any(a[0] in OPAQ and a not in R.tick for a in at):
        return False
    c = base_of(R, x.addr)
    if len(c) != 1:
        return False
    # picked through a table by the thread: contents of the table decide
    flat = terms.atoms_of(x.addr, deep=False)
    for a in flat:
        if a[0] in ("ld", "ldx") and R.threaded(atom(a)):
            return False
    return True


def races(rep, R, conf, name):
    rule = "no location is written by one thread while another one accesses it"
    sh = [x for x in R.acc if x.addr is not None and judged(R, x) and not globl(x)]
    groups = {}
    for x in sh:
        groups.setdefault(R.root(x)[0], []).append(x)
    n = 0
    bad = set()
    for g, xs in groups.items():
        ws = [x for x in xs if x.w]
        if not ws:
            continue
        sing = {x: R.self_single(x) for x in xs}
        found = None
        for team, seed in ((2, 1), (3, 2), (4, 3), (3, 4), (2, 5)):
            E = Events(R, team, seed)
            ev = [(x, E.of(x)) for x in xs]
            wmap = {}
            for x, l in ev:
                if x.w:
                    for lab, a in l:
                        for byte in range(a, a + min(x.size, 64), 4 if x.size >= 4 else 1):
                            wmap.setdefault(byte, []).append((lab, x))
            for y, l in ev:
                for lab, a in l:
                    for byte in range(a, a + min(y.size, 64), 4 if y.size >= 4 else 1):
                        for lab2, x in wmap.get(byte, ()):
                            if lab2 != lab and (x, y) not in bad and (y, x) not in bad and conflict(R, x, y, sing):
                                bad.add((x, y))
                                rep.bad(rule, x.where(), "%s: %s of %s and %s of %s (%s) by different threads at the same time" % (
                                    name, "write" if x.w else "read", show(x), "write" if y.w else "read", show(y), y.where()), None, conf)
        for x in ws:
            n += 1
            if not any(x in p for p in bad):
                rep.ok(rule, x.where(), "%s: %s" % (name, show(x)), conf)
    for f in R.fns:
        for i in f.insts():
            q = call_name(i)
            if q in UNSAFE:
                rep.bad("no routine with hidden shared state is called by the threads", R.U.view(f).where(i), "%s calls %s" % (name, q), None, conf)
    return n


def globl(x):
    return any(a[0] == "g" and str(a).find("_ZSt4c") >= 0 for a in terms.atoms_of(x.addr))


def show(x):
    s = terms.show(x.addr)
    return (s if len(s) < 120 else s[:120] + "...") + (" [%s]" % x.what if x.what not in ("load", "store") else "")


def conflict(R, x, y, sing):
    if x.atomic and y.atomic:
        return False
    if x.locks & y.locks:
        return False
    if sing[x] & sing[y]:
        return False
    if not R.together(x, y):
        return False
    return not (handoff(R, x, y) or handoff(R, y, x))


def handoff(R, x, y):
    """everything at x happens before a flag is set, everything at y after it was seen"""
    v = R.v
    pub = [p for p in R.acc if p.w and p.fn is R.f and p.inst.op == "store" and (p.locks or p.atomic) and isinstance(p.inst.ops[0], Const)]
    for p in pub:
        if any(after(v, p.inst, i) for b, i in x.pos):
            continue
        # only threads that set the flag themselves, or wait for it, come to y
        for q in R.acc:
            if q.w or q.fn is not R.f or not same(R, q, p) or not (q.locks & p.locks or q.atomic and p.atomic):
                continue
            for s in v.succ[q.block]:
                if len(v.succ[q.block]) < 2 or any(z is not q.block and not v.dominates(s, z) for z in s.preds if z in v.succ):
                    continue
                c = v.edge_cond(q.block, s)
                t = R.U.num(v, q.inst, q.block)
                if t is None or not positive(c, t):
                    continue
                if all(v.dominates(s, b) for b, i in y.pos):
                    return True
    return False


def positive(c, t):
    """the edge is taken only if the flag is set"""
    a = t.atom()
    for l in bdd.support(c):
        if isinstance(l[1], Poly) and a in terms.atoms_of(l[1]):
            f = lambda z: rnd.Model(1, lambda x, u, m: z if x == a else None, exact=True).bdd(c)
            try:
                return not f(0.0)
            except rnd.Undef:
                return False
    return False


def after(v, p, i):
    """can i run after p in the same thread"""
    if p.bb is i.bb and p.bb.insts.index(i) > p.bb.insts.index(p):
        return True
    seen, todo = set(), list(v.succ[p.bb])
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b is i.bb:
            return True
        todo += v.succ[b]
    return False


def regions(M):
    out, seen = [], set()
    for f in M.fns.values():
        if f.decl:
            continue
        for i in f.insts():
            n = call_name(i)
            if n and n.startswith(("__kmpc_fork_call", "__kmpc_fork_call_if")):
                g = next((M.fns.get(o.v) for o in i.ops if isinstance(o, Const) and o.kind == "fn" and o.v != n), None)
                if g is not None and not g.decl and g.name not in seen:
                    seen.add(g.name)
                    out.append((f, i, g))
    return out


def c02(rep, tmp, conf, defs, src, part=0, parts=1):
    fview.FView.PUREX = ()
    M = units.build(tmp, "race" + src.replace("/", "_"), [units.SRC + "/" + src], defs, ["-fopenmp"])
    U = Unit(M)
    rs = regions(M)
    rep.unit("%s: %d parallel regions [%s]" % (src, len(rs), " ".join(defs) or "debug"))
    if not rs and part == 0:
        rep.ok("every parallel region is analysed", src, "no parallel region in this unit", conf)
    for f, i, g in rs[part::parts]:
        name = policy.qual(f.dname)
        R = Region(U, g, (f, i))
        n = races(rep, R, conf, name)
        rep.ok("every parallel region is analysed", U.view(f).where(i), "%s: %d functions, %d accesses, %d shared writes" % (name, len(R.fns), len(R.acc), n), conf)


# ------------------------------------------------------------------------------------------------- C03: nobody waits for ever
TEAMS = (1, 2, 3, 5, 9)
TEAMWORK = ("__kmpc_barrier", "__kmpc_cancel_barrier", "__kmpc_for_static_init", "__kmpc_dispatch_init", "__kmpc_single", "__kmpc_reduce")


def inst_cond(R, c, team, tid):
    """condition of one thread: what is known about its number is filled in; (condition, literals that stay unclear)"""
    unclear = []
    asg = {}
    for l in bdd.support(c):
        if not isinstance(l[1], Poly):
            continue
        at = terms.atoms_of(l[1])
        if TID not in at and TEAM not in at:
            continue
        if at <= {TID, TEAM}:
            m = rnd.Model(1, lambda a, u, m: float(team) if a == TEAM else float(tid) if a == TID else None, exact=True)
            try:
                asg[l] = bool(m.bdd(bdd.var(l)))
                continue
            except rnd.Undef:
                pass
        unclear.append(l)
    return bdd.restrict(c, asg), unclear


def bounded(R, c, team, tid, most):
    """like inst_cond, with the size of the team asked for (the runtime may grant less) as a number"""
    asg = {}
    for l in bdd.support(c):
        if not isinstance(l[1], Poly):
            continue
        t = R.f_int(l[1])
        at = terms.atoms_of(t)
        if not at & {TID, TEAM}:
            continue
        if not at <= {TID, TEAM, ("maxthreads",)}:
            return None
        m = rnd.Model(1, lambda a, u, m: float(team) if a == TEAM else float(tid) if a == TID else float(most) if a == ("maxthreads",) else None, exact=True)
        try:
            asg[l] = bool(m.bdd(bdd.subst_lit(l, R.f_int)))
        except rnd.Undef:
            return None
    return bdd.restrict(c, asg)


def teamwork(rep, R, conf, name):
    rule = "barriers and work-sharing constructs are reached by all threads of a team or by none"
    v = R.v
    for b in v.rpo:
        for i in b.insts:
            n = call_name(i) or ""
            if not n.startswith(TEAMWORK):
                continue
            kind = n.replace("__kmpc_", "").rstrip("_4u8")
            why = None
            cs = [v.rc(b)] + [c for L, c in v.guards(b)]
            for c in cs:
                for team in (2, 3, 5, 9, 33):
                    per = [inst_cond(R, c, team, tid) for tid in range(team)]
                    if any(TID in terms.atoms_of(l[1]) for p in per for l in p[1]) or any(p[0] != per[0][0] for p in per):
                        why = "whether a thread gets here depends on its number (%s)" % bdd.show(c)[:200]
            if not why and n.startswith(("__kmpc_barrier", "__kmpc_for", "__kmpc_dispatch", "__kmpc_single")):
                if any(b in d for j, d in R.singles()) and not n.startswith("__kmpc_single"):
                    why = "inside a construct that is executed by one thread"
                lk = R.U.locks(R.f)[i] if n.startswith("__kmpc_barrier") else ()
                if any(x != ("n", "reduce") for x in lk):
                    why = "reached while a lock is held that the other threads need to get here"
            for L in v.loops_of(b):
                t = v.trip(L)
                if t is not None and (TID in terms.atoms_of(t)) and L.K.atom() not in R.ws:
                    why = "repeated %s times, which depends on the thread" % terms.show(t)[:100]
                if L.K.atom() in R.ws:
                    why = "inside a loop whose iterations are shared among the threads"
            if why:
                rep.bad(rule, v.where(i), "%s: %s: %s" % (name, kind, why), None, conf)
            else:
                rep.ok(rule, v.where(i), "%s: %s" % (name, kind), conf)


def acquire(i):
    n = call_name(i) or ""
    q = policy.qual(ir.demangle(n)) if n else ""
    if q.endswith("mutex::lock") or n in ("pthread_mutex_lock", "omp_set_lock"):
        return "lock"
    if n.startswith("__kmpc_critical"):
        return "critical"
    if q.endswith(("mutex::unlock",)) or n in ("pthread_mutex_unlock", "omp_unset_lock"):
        return "unlock"
    if n.startswith("__kmpc_end_critical"):
        return "end critical"


def lock_of(U, v, i):
    if (call_name(i) or "").startswith(("__kmpc_critical", "__kmpc_end_critical")):
        return ("n", str(getattr(i.ops[2], "v", "?")))
    t = U.num(v, i.ops[0], i.bb)
    return ("m", t) if t is not None else None


def locking(rep, R, conf, name):
    rule = "every lock taken is released again, and no thread takes a lock it already holds"
    seen = set()
    edges = {}
    for f in R.fns:
        v = R.U.view(f)
        lk = R.U.locks(f)
        acq = [(b, i) for b in v.rpo for i in b.insts if acquire(i) in ("lock", "critical")]
        if not acq:
            continue
        for b, i in acq:
            l = lock_of(R.U, v, i)
            if l is None:
                continue
            if l in lk[i]:
                rep.bad(rule, v.where(i), "%s: %s is taken while the thread holds it" % (name, lockname(l)), None, conf)
                continue
            # released on every way to the end of the function
            bad = leak(R.U, v, b, i, l)
            if bad is not None:
                rep.bad(rule, v.where(i), "%s: %s is still held when the function is left (%s)" % (name, lockname(l), bad), None, conf)
            else:
                rep.ok(rule, v.where(i), "%s: %s" % (name, lockname(l)), conf)
    # nested acquisitions across functions
    for l, held, where, f in R.lockuse:
        if l[0] == "m":
            l = (l[0], R.f_res(l[1]))
            if any(a[0] in OPAQ for a in terms.atoms_of(l[1])):
                continue
        for h in held:
            h = (h[0], R.f_res(h[1])) if h[0] == "m" else h
            if h == l and lock_free(R, f, where, l):
                rep.bad(rule, where, "%s: %s is taken while a calling function holds it" % (name, lockname(l)), None, conf)
            edges.setdefault(h, {}).setdefault(l, where)
    for a in edges:
        for b in edges[a]:
            if a != b and a in edges.get(b, {}):
                rep.bad("locks are always taken in one order", edges[a][b], "%s: %s and %s are taken in both orders (%s)" % (name, lockname(a), lockname(b), edges[b][a]), None, conf)


def lock_free(R, f, where, l):
    """the lock is held by a caller (a repeated acquisition inside of one function is reported elsewhere)"""
    return True


def lockname(l):
    return "critical section" if l[0] == "n" else "mutex " + terms.show(l[1])[:80]


def leak(U, v, b, i, l):
    rel = {}
    for c in v.rpo:
        for k, j in enumerate(c.insts):
            if acquire(j) in ("unlock", "end critical"):
                m = lock_of(U, v, j)
                if m is None or m == l or m[0] == "m" and any(a[0] in ("ldx", "phi", "fin") for a in terms.atoms_of(m[1])):
                    rel.setdefault(c, k)
    # a guard object releases the lock if it owns it: the test is part of the release
    ask = set()
    for c in rel:
        while len(c.preds) == 1 and c.preds[0] in v.succ and len(v.succ[c.preds[0]]) == 2:
            p = c.preds[0]
            at = [terms.atoms_of(x[1]) for x in bdd.support(v.edge_cond(p, c)) if isinstance(x[1], Poly)]
            if not at or not all(any(a[0] == "ldx" or a[0] == "ld" and any(z[0] == "alloca" for z in terms.atoms_of(a[1])) for a in y) for y in at):
                break
            ask.add(p)
            c = p
    todo, seen = [(b, b.insts.index(i) + 1)], set()
    while todo:
        c, k = todo.pop()
        if (c, k) in seen:
            continue
        seen.add((c, k))
        if rel.get(c, -1) >= k:
            continue
        if c.insts[-1].op == "ret":
            return v.where(c.insts[-1])
        if c in ask:
            continue
        todo += [(s, 0) for s in v.succ[c]]
    return None


def waits(rep, R, conf, name):
    """every waiting loop is released by somebody for every team size"""
    rule = "whoever waits is released, for every size of the team"
    U = R.U
    for f in R.fns:
        v = U.view(f)
        for L in v.loops.values():
            cvw = [i for b in L.body for i in b.insts if policy.qual(ir.demangle(call_name(i) or "x")).endswith("condition_variable::wait")]
            idle = not cvw and spin(v, L)
            if not cvw and not idle:
                continue
            if f is not R.f:
                rep.undecided(rule, v.where(L.h.insts[-1]), "waiting loop in a called function")
                continue
            waitloop(rep, rule, R, v, L, cvw, conf, name)
        for b in v.rpo:
            for i in b.insts:
                if policy.qual(ir.demangle(call_name(i) or "x")).endswith("condition_variable::wait") and not any(b in L.body for L in v.loops.values()):
                    rep.bad(rule, v.where(i), "%s: the wait is not repeated until its condition holds; a notification that came before is lost" % name, None, conf)


def spin(v, L):
    """a loop that only looks at memory until it changes"""
    if v.trip(L) is not None:
        return False
    at = False
    for b in L.body:
        for i in b.insts:
            if i.op in ("store", "atomicrmw", "cmpxchg", "invoke"):
                return False
            if i.op == "call" and not (call_name(i) or "?").startswith(("llvm.", "sched_yield", "usleep", "_ZNSt11this_thread")):
                return False
            if i.op == "load" and (i.x["atomic"] or i.x.get("volatile")):
                at = True
            if i.op == "phi" and b is L.h:
                return False
    return at


def place(R, x):
    r, o, i = R.root(x)
    return r, i + P(o)


def waitloop(rep, rule, R, v, L, cvw, conf, name):
    U = R.U
    where = v.where(cvw[0] if cvw else L.h.insts[-1])
    reads = [x for x in R.acc if not x.w and x.fn is R.f and x.block in L.body and x.inst.op == "load" and not any(x.inst is y for c in cvw for y in c.ops)]
    flags = {}
    for x in reads:
        t = U.num(v, x.inst, x.block)
        if x.addr is not None and judged(R, x) and t is not None and t.atom() is not None:
            flags.setdefault(place(R, x), []).append((x, t.atom()))
    exits = [(b, s) for b in L.body for s in v.succ[b] if s not in L.body]
    # flags the exits look at
    used = {}
    for b, s in exits:
        c = v.edge_cond(b, s)
        for l in bdd.support(c):
            if isinstance(l[1], Poly):
                for k, xs in flags.items():
                    if any(a in terms.atoms_of(l[1]) for x, a in xs):
                        used.setdefault(k, []).append((c, [a for x, a in xs], xs[0][0]))
    if not used:
        rep.undecided(rule, where, "%s: the condition waited for is not recognised" % name)
        return
    held = None
    for k, us in used.items():
        for c, ats, x in us:
            held = x.locks if held is None else held & x.locks
    pubs = []
    part_of = {}
    unknown = False
    for p in R.acc:
        if not p.w or p.addr is None or not judged(R, p) or place(R, p) not in used:
            continue
        if p.inst.op != "store" or p.fn is not R.f:
            unknown = True
            continue
        if not isinstance(p.inst.ops[0], Const):
            t = v.at(p.inst.ops[0], p.block)
            tb = ~bdd.eq0(t) if isinstance(t, Poly) else t
            if isinstance(t, Poly) and t.atom() is not None and t.atom()[0] in ("ld", "ldx", "phi", "fin", "call"):
                unknown = True
                continue
            part_of[p] = tb
            pubs.append(p)
            if tb is not bdd.T and len([q for q in R.acc if q.w and q.fn is R.f and q is not p and same(R, q, p)]):
                rep.bad(rule, p.where(), "%s: the condition may be taken back while other threads still wait for it" % name, None, conf)
            continue
        val = U.num(v, p.inst.ops[0], p.block)
        val = 1.0 if val is None else float(val.const()) if val.const() is not None else 1.0
        if p.inst.ops[0].ty == "i1":
            val = 1.0 if str(p.inst.ops[0].v) in ("1", "true", "True", "-1") else 0.0
        rel = False
        for c, ats, x in used[place(R, p)]:
            lits = [l for l in bdd.support(c) if not (isinstance(l[1], Poly) and any(a in terms.atoms_of(l[1]) for a in ats))]
            cc = bdd.exists(c, lits)
            try:
                rel = rel or rnd.Model(1, lambda a, u, m: val if a in ats else None, exact=True).bdd(cc)
            except rnd.Undef:
                pass
        if rel:
            pubs.append(p)
        elif not all(after(v, p.inst, q.inst) and not after(v, q.inst, p.inst) for q in R.acc if q.w and R.U is not None and q.fn is R.f and q is not p and same(R, q, p)):
            rep.bad(rule, p.where(), "%s: the condition is taken back while other threads still wait for it" % name, None, conf)
    if not pubs:
        if unknown:
            rep.undecided(rule, where, "%s: the condition is set by an operation that is not understood" % name)
        else:
            rep.bad(rule, where, "%s: no thread of the region ever sets the condition waited for" % name, None, conf)
        return
    good = [p for p in pubs if not after(v, L.h.insts[-1], p.inst) or p.block in L.body]
    wc = v.rc(L.h)
    bad = None
    for team in TEAMS:
        for most in ((team, team + 1, team + 3) if True else ()):
            tot = bdd.F
            und = False
            for tid in range(team):
                for p in good:
                    c = bounded(R, v.rc(p.block), team, tid, most)
                    if c is None:
                        und = True
                    else:
                        tot = tot | (c & part_of.get(p, bdd.T))
            need = bdd.F
            for tid in range(team):
                c = bounded(R, wc, team, tid, most)
                need = need | (c if c is not None else bdd.T)
            if not bdd.implies(need, tot):
                if und or unknown:
                    bad = bad or "?"
                else:
                    bad = "a team of %d (of %d threads asked for): %s" % (team, most, "nobody sets the condition" if tot is bdd.F else "the condition is only set if " + bdd.show(tot)[:200])
                    break
        if bad and bad != "?":
            break
    if bad == "?":
        rep.undecided(rule, where, "%s: the thread that sets the condition is not recognised" % name)
    elif bad:
        rep.bad(rule, where, "%s: %s" % (name, bad), None, conf)
    else:
        rep.ok(rule, where, "%s: set by %s" % (name, ", ".join(sorted({p.where() for p in good}))), conf)
    if not cvw:
        return
    rule2 = "setting a condition wakes all threads that wait for it"
    cva = U.num(v, cvw[0].ops[0], cvw[0].bb)
    for p in good:
        miss = notified(R, U, v, p, cva, held or frozenset())
        if miss == "?":
            rep.undecided(rule2, p.where(), "condition variable not recognised")
        elif miss:
            rep.bad(rule2, p.where(), "%s: %s" % (name, miss), None, conf)
        else:
            rep.ok(rule2, p.where(), name, conf)


def notified(R, U, v, p, cva, held):
    if cva is None:
        return "?"
    locked = bool(p.locks & held)
    todo, seen = [(p.block, p.block.insts.index(p.inst) + 1, locked)], set()
    while todo:
        b, k, lk = todo.pop()
        if (b, k, lk) in seen:
            continue
        seen.add((b, k, lk))
        stop = False
        for j in b.insts[k:]:
            q = policy.qual(ir.demangle(call_name(j) or "x"))
            if q.endswith("mutex::lock"):
                lk = True
            if q.endswith(("condition_variable::notify_all", "condition_variable::notify_one")):
                a = U.num(v, j.ops[0], b)
                if a is None or any(z[0] in ("ldx", "phi") for z in terms.atoms_of(a)):
                    return "?"
                if a == cva or R.f_res(a) == R.f_res(cva):
                    if q.endswith("one"):
                        return "only one of the waiting threads is woken"
                    if not lk:
                        return "the condition is set without the mutex of the waiting threads: one that just looked at it sleeps for ever"
                    stop = True
                    break
            if j.op == "ret":
                return "the waiting threads are not notified on every path"
        if not stop:
            todo += [(s, 0, lk) for s in v.succ[b]]
    return None


def c03(rep, tmp, conf, defs, src, part=0, parts=1):
    fview.FView.PUREX = ()
    M = units.build(tmp, "hang" + src.replace("/", "_"), [units.SRC + "/" + src], defs, ["-fopenmp"])
    U = Unit(M)
    rs = regions(M)
    rep.unit("%s: %d parallel regions [%s]" % (src, len(rs), " ".join(defs) or "debug"))
    if not rs and part == 0:
        rep.ok("every parallel region is analysed", src, "no parallel region in this unit", conf)
    for f, i, g in rs[part::parts]:
        name = policy.qual(f.dname)
        R = Region(U, g, (f, i))
        teamwork(rep, R, conf, name)
        locking(rep, R, conf, name)
        waits(rep, R, conf, name)
        rep.ok("every parallel region is analysed", U.view(f).where(i), "%s: %d functions" % (name, len(R.fns)), conf)
