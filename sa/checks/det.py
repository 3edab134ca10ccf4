"""C01: for a non-negative seed the sampled data is a function of the arguments and the number of threads.

Decided on the SSA form of every library unit (compiled with OpenMP) and of the samplers as a user instantiates them:
 - values of nondeterministic sources (entropy, clocks, thread identities, machine properties, addresses used as numbers) are followed
   through the program; under the assumption that the seed is not negative they must not reach engines, results or decisions;
 - every seeding of an engine is compared with the required function of the seed; streams of different threads/tasks must differ;
 - the engine a part of the work draws from must not depend on the schedule;
 - no state of an earlier call survives in globals or in engines that are not seeded again;
 - no floating-point sum is accumulated in an order left to the schedule.
"""
import math
import re

import bdd
import fview
import ir
import policy
import rnd
import strs
import terms
import units
from checks.race import Unit, Region, regions, sub, call_name, TID, TEAM, acquire
from ir import AnalysisError, Const, Inst
from terms import P, Poly, atom

R_SRC = "entropy, clocks, addresses and machine properties do not influence what a non-negative seed samples"
R_SEED = "the seed of every engine is the required function of the given seed"
R_STREAM = "different threads, shares and tasks draw from differently seeded engines"
R_ENG = "the engine a part of the work draws from does not depend on the schedule"
R_FRESH = "every engine is seeded in the call that draws from it"
R_STATE = "no state of an earlier call influences sampling"
R_SUM = "no floating-point sum is accumulated in an order left to the schedule"
R_COVER = "engines, sources and global state of the unit are analysed"

SRC = re.compile(r"^(std::random_device::(operator\(\)|_M_getval|entropy)|std::chrono::.*::now|std::this_thread::get_id|std::thread::hardware_concurrency|std::thread::get_id|"
                 r"ScopedTimer::elapsed|std::clock|std::time)$")
CSRC = {"time", "clock", "gettimeofday", "clock_gettime", "getpid", "getppid", "gettid", "pthread_self", "rand", "rand_r", "random", "drand48", "lrand48", "mrand48", "getrandom", "getentropy",
        "arc4random", "arc4random_uniform", "omp_get_wtime", "omp_get_wtick", "omp_get_num_procs", "sched_getcpu", "getenv", "secure_getenv", "sysconf", "timespec_get",
        "llvm.readcyclecounter", "llvm.x86.rdtsc", "llvm.x86.rdtscp", "llvm.x86.rdrand.32", "llvm.x86.rdrand.64", "llvm.x86.rdseed.32", "llvm.x86.rdseed.64", "mallinfo", "getrusage"}
ENG = re.compile(r"^std::\w+_engine::|^std::(discard_block_engine|independent_bits_engine|shuffle_order_engine)")
ENGT = re.compile(r"\bstd::\w+_engine<")
OUT = re.compile(r"^(std::(operator<<|basic_ostream|basic_\w*ostream|basic_ios|ios_base|setprecision|setw|endl|fixed|basic_stringstream|basic_filebuf|__cxx11::basic_o?stringstream)|ScopedTimer)")


def q_of(i):
    n = call_name(i)
    return policy.qual(ir.demangle(n)) if n else ""


def is_source(i):
    n = call_name(i)
    return bool(n) and (n in CSRC or bool(SRC.match(q_of(i))))


class Fn:
    """one function (or region) with the meaning of its integers: names of the caller's arguments"""

    def __init__(self, U, f, R=None):
        self.U, self.f, self.R = U, f, R
        self.v = U.view(f)
        self.int = R.f_int if R is not None else (lambda t: t)
        self.feas = {}

    def num(self, o, b):
        t = self.U.num(self.v, o, b)
        return self.int(t) if t is not None else None

    def lits(self, c):
        """conditions on integers the caller gave (or integers read from somewhere)"""
        keep, drop = [], []
        for l in bdd.support(c):
            at = terms.atoms_of(l[1]) if isinstance(l[1], Poly) else set()
            (keep if any(self.U.ints.get(a) for a in at) else drop).append(l)
        return keep, drop

    def feasible(self, b):
        """can the block be reached with a non-negative seed"""
        if b not in self.feas:
            try:
                c = self.v.full(b)
            except (AnalysisError, KeyError):
                c = bdd.T
            self.feas[b] = self.sat(c)
        return self.feas[b]

    def sat(self, c):
        c = bdd.bdd_subst(c, self.int) if self.R is not None and self.R.ints else c
        keep, drop = self.lits(c)
        c = bdd.exists(c, drop)
        if c is bdd.T:
            return True
        if c is bdd.F:
            return False
        # every condition on one such integer at a time: a conjunction of conditions on different integers is taken to be possible
        own = {l: {a for a in terms.atoms_of(l[1]) if self.U.ints.get(a)} for l in keep}
        for a in {next(iter(s)) for s in own.values() if len(s) == 1}:
            p = bdd.exists(c, [l for l in keep if own[l] != {a}])
            if p is not bdd.T and not self.some(p, a):
                return False
        return True

    def some(self, c, a):
        if c is bdd.F:
            return False
        ks = set()
        for l in bdd.support(c):
            try:
                q, r = fview.split_lin(l[1], a)
                if q is not None and isinstance(q, Poly) and q.const() and r.const() is not None:
                    x = -r.const() / q.const()
                    ks |= {math.floor(x) + d for d in (-1, 0, 1, 2)}
            except Exception:
                pass
        for k in range(60):
            m = rnd.Model(k, self.U.dom, exact=True)
            try:
                if m.bdd(c):
                    return True
            except rnd.Undef:
                pass
        for k, x in enumerate(sorted(x for x in ks if x >= 0)):
            try:
                if rnd.Model(k, lambda b, u, m: float(x) if b == a else self.U.dom(b, u, m), exact=True).bdd(c):
                    return True
            except rnd.Undef:
                pass
        return False

    def edge(self, p, b):
        if not self.feasible(p):
            return False
        try:
            return self.sat(self.v.edge_cond(p, b))
        except (AnalysisError, KeyError):
            return True


class DUnit(Unit):
    def __init__(self, M):
        super().__init__(M)
        self.ints = IntAtoms(self)
        self.srcs = {}

    def dom(self, a, u, m):
        if a == TEAM:
            return float(1 + int(7 * m.rnd("team")))
        if a == TID:
            return float(int(m.rnd("tid") * (1 + int(7 * m.rnd("team")))))
        if a[0] == "maxthreads":
            return float(1 + int(7 * m.rnd("team")) + int(3 * m.rnd("more") * (m.rnd("mm") > 0.5)))
        if u is None:
            return None
        if self.ints.get(a):
            z = m.rnd("z" + terms.show_atom(a))
            return 0.0 if z < 0.2 else float(int(1 + 50 * u)) if z < 0.8 else 2147483647.0
        if a in self.ptr:
            return 16384.0 * int(1 + 4000 * u)
        if a[0] in ("k", "kx"):
            return float(int(8 * u))
        return None


class IntAtoms:
    """is the atom an integer a caller chose: integer argument, or integer read from memory"""

    def __init__(self, U):
        self.U, self.memo = U, {}
        self.args = {}

    def note(self, v):
        for a in v.fn.args:
            t = v.term(a)
            if isinstance(t, Poly) and t.atom() is not None:
                self.args[t.atom()] = a.ty

    def get(self, a):
        if a[0] == "arg":
            if a not in self.args:
                return False
            return self.args[a] in ("i32", "i64", "i16")
        return a[0] in ("ld", "ldx") and a not in self.U.ptr


# ------------------------------------------------------------------------------------------------- values of sources
class Taint:
    def __init__(self, U, rep, conf):
        self.U, self.rep, self.conf = U, rep, conf
        self.args, self.ret = {}, {}                 # function -> {argument index: source}, function -> source
        self.margs = {}                              # argument points to memory with the value
        self.fn = {}
        self.hits = {}                               # source inst -> [(where, what)]
        self.feas = {}

    def run(self, fns):
        fns = [F for F in fns]
        for _ in range(12):
            before = (repr(sorted((k, sorted(x)) for k, x in self.args.items())), repr(sorted((k, sorted(x)) for k, x in self.margs.items())), sorted(self.ret))
            for F in fns:
                self.one(F)
            if before == (repr(sorted((k, sorted(x)) for k, x in self.args.items())), repr(sorted((k, sorted(x)) for k, x in self.margs.items())), sorted(self.ret)):
                break

    def root(self, p):
        while isinstance(p, Inst) and p.op in ("gep", "bitcast", "freeze"):
            p = p.ops[0]
        return p

    def hit(self, s, i, what):
        self.hits.setdefault(s, {})[(fview.where(i), what)] = True

    def one(self, F):
        f, U = F.f, self.U
        val, mem = {}, {}
        for k, s in self.args.get(f.name, {}).items():
            val[f.args[k]] = s
        for k, s in self.margs.get(f.name, {}).items():
            mem[f.args[k]] = s
        ch = True
        while ch:
            ch = False

            def put(d, k, s):
                nonlocal ch
                if k not in d:
                    d[k] = s
                    ch = True
            for b in F.v.rpo:
                for i in b.insts:
                    if is_source(i):
                        if F.feasible(b):
                            put(val, i, i)
                            self.feas[i] = True
                        continue
                    if i.op == "ptrtoint":
                        us = self.numbers(i)
                        if us and F.feasible(b):
                            for u in us:
                                put(val, u, i)
                            self.feas[i] = True
                        continue
                    if i.op == "phi":
                        for o, p in zip(i.ops, i.x if isinstance(i.x, (list, tuple)) else i.bb.preds):
                            if o in val and F.edge(p, b):
                                put(val, i, val[o])
                        continue
                    if i.op == "select":
                        for o in i.ops[1:]:
                            if o in val:
                                c = F.v.cond(i.ops[0])
                                c = c if o is i.ops[1] else ~c
                                if F.sat(c):
                                    put(val, i, val[o])
                        continue
                    if i.op == "load":
                        r = self.root(i.ops[0])
                        if r in mem:
                            put(val, i, mem[r])
                        continue
                    if i.op == "store":
                        if i.ops[0] in val:
                            r = self.root(i.ops[1])
                            if isinstance(r, Inst) and r.op == "alloca":
                                put(mem, r, val[i.ops[0]])
                            elif not (r in mem):
                                self.hit(val[i.ops[0]], i, "is stored")
                        continue
                    if i.op in ("call", "invoke"):
                        self.call(F, i, b, val, mem, put)
                        continue
                    if i.op in ("br", "switch"):
                        s = next((val[o] for o in i.ops if o in val), None)
                        if s is not None and not self.harmless(F, b):
                            self.hit(s, i, "decides a branch")
                        continue
                    if i.op == "ret":
                        s = next((val[o] for o in i.ops if o in val), None)
                        if s is not None:
                            self.ret.setdefault(f.name, s)
                        continue
                    s = next((val[o] for o in i.ops if o in val), None)
                    if s is not None:
                        put(val, i, s)

    def numbers(self, i):
        """the address is used as a number (not for a distance or a comparison of two pointers)"""
        out = []
        for u in i.users:
            if u.op == "sub" and all(isinstance(o, Inst) and o.op == "ptrtoint" for o in u.ops):
                continue
            if u.op in ("icmp", "inttoptr", "store") or u.op in ("call", "invoke") and (call_name(u) or "").startswith("llvm.assume"):
                continue
            if u.op == "and" and all(v.op == "icmp" for v in u.users):
                continue
            out.append(u)
        return out

    def harmless(self, F, b):
        """nothing but output depends on the branch"""
        v = F.v
        arms = [s for s in v.succ[b]]
        if len(arms) != 2:
            return False
        seen = [set(), set()]
        for k, a in enumerate(arms):
            todo = [a]
            while todo:
                x = todo.pop()
                if x in seen[k] or x is b:
                    continue
                seen[k].add(x)
                todo += v.succ[x]
        for x in seen[0] ^ seen[1]:
            for i in x.insts:
                if i.op == "store" and not (isinstance(self.root(i.ops[1]), Inst) and self.root(i.ops[1]).op == "alloca"):
                    return False
                if i.op in ("call", "invoke") and not (call_name(i) or "").startswith("llvm.") and not OUT.match(q_of(i)):
                    return False
                if i.op == "ret":
                    return False
        return not any(i.op == "phi" for x in seen[0] & seen[1] for i in x.insts if any(p in seen[0] ^ seen[1] for p in x.preds))

    def call(self, F, i, b, val, mem, put):
        n, q = call_name(i), q_of(i)
        ts = [(k, val.get(o)) for k, o in enumerate(i.ops) if o in val]
        ms = [(k, mem[self.root(o)]) for k, o in enumerate(i.ops) if o.ty == "ptr" and self.root(o) in mem]
        g = self.U.user(n) if n else None
        if n and n.startswith("__kmpc_fork_call"):
            g = next((self.U.M.fns.get(o.v) for o in i.ops if isinstance(o, Const) and o.kind == "fn" and o.v != n), None)
            if g is not None:
                ops = [o for o in i.ops if not (isinstance(o, Const) and o.kind == "fn")][2:]
                for k, o in enumerate(ops):
                    if k + 2 < len(g.args):
                        if o in val:
                            self.args.setdefault(g.name, {})[k + 2] = val[o]
                        if self.root(o) in mem and o.ty == "ptr":
                            self.margs.setdefault(g.name, {})[k + 2] = mem[self.root(o)]
            return
        if g is not None:
            for k, s in ts:
                self.args.setdefault(g.name, {})[k] = s
            for k, s in ms:
                self.margs.setdefault(g.name, {})[k] = s
            if g.name in self.ret:
                put(val, i, self.ret[g.name])
            return
        if n is None or not (ts or ms):
            return
        s = (ts or ms)[0][1]
        if OUT.match(q):
            return
        if ENG.match(q) or any(ENGT.search(p) for p in strs.params(ir.demangle(n))):
            if F.feasible(b):
                self.hit(s, i, "reaches the random engine (%s)" % q)
            return
        if n.startswith("llvm.mem"):
            if ms and ms[0][0] == 1 or ts and ts[0][0] == 1:
                r = self.root(i.ops[0])
                if isinstance(r, Inst) and r.op == "alloca":
                    put(mem, r, s)
                else:
                    self.hit(s, i, "is stored")
            return
        if n.startswith("llvm.lifetime"):
            return
        if i.ty != "void" and ts:
            put(val, i, s)
        if ts or ms:
            ps = strs.params(ir.demangle(n))
            member = len(i.ops) == len(ps) + 1
            for k, o in enumerate(i.ops):                       # objects the routine may write
                if o.ty == "ptr" and (k == 0 and member or k - member < len(ps) and ps[k - member].endswith("&") and not ps[k - member].endswith("const&")):
                    if not any(k == kk for kk, _ in ts) and not (k == 0 and member and ir.demangle(n).endswith(" const")):
                        r = self.root(o)
                        if q.split("::")[-1].startswith("~"):
                            continue
                        if isinstance(r, Inst) and r.op == "alloca":
                            put(mem, r, s)
                        elif r not in mem and ts:
                            self.hit(s, i, "is handed to %s" % q)


# ------------------------------------------------------------------------------------------------- engines
class Seeding:
    """an engine (or an element of a table of engines) gets its state: addr, ("val", term) | ("seq", begin, end) | ("default",)"""
    __slots__ = ("F", "inst", "block", "addr", "kind", "val", "vec", "loop")


def engine_params(i):
    n = call_name(i)
    d = ir.demangle(n)
    q = policy.qual(d)
    ps = strs.params(d)
    off = len(i.ops) - len(ps) if len(i.ops) >= len(ps) else 0
    out = []
    if ENG.match(q):
        op = q.split("::")[-1]
        if op in ("operator()", "discard"):
            out.append(0)
    for k, p in enumerate(ps):
        if ENGT.search(p) and p.endswith("&") and not p.startswith("std::vector") and not p.endswith("const&") and not p.endswith("&&") and "vector<" not in p and k + off < len(i.ops):
            if not ENG.match(q) and not q.startswith(("std::vector", "std::allocator", "std::_Construct")):
                out.append(k + off)
    return out


def seedings(F):
    U, v, out = F.U, F.v, []
    seqs, local, copies = {}, {}, []
    for b in v.rpo:
        for i in b.insts:
            if i.op not in ("call", "invoke"):
                continue
            n = call_name(i)
            if not n:
                continue
            d = ir.demangle(n)
            q = policy.qual(d)
            op = q.split("::")[-1]
            if q == "std::seed_seq::seed_seq" and len(i.ops) >= 3:
                seqs.setdefault(U.num(v, i.ops[0], b), []).append((F.num(i.ops[1], b), F.num(i.ops[2], b), b, i))
            s = Seeding()
            s.F, s.inst, s.block, s.vec, s.loop = F, i, b, None, v.loopof.get(b)
            if ENG.match(q) and (op == "seed" or op == q.split("::")[1]):
                s.addr = U.num(v, i.ops[0], b)
                ps = strs.params(d)
                if len(i.ops) == 1:
                    s.kind, s.val = "default", None
                elif ps and ENGT.search(ps[0]) and ps[0].endswith("&"):
                    s.kind, s.val = "copy", U.num(v, i.ops[1], b)
                elif i.ops[1].ty == "ptr":
                    s.kind, s.val = "seq", U.num(v, i.ops[1], b)
                else:
                    s.kind, s.val = "val", F.num(i.ops[1], b)
                out.append(s)
            elif op in ("emplace_back", "push_back") and q.startswith("std::vector") and ENGT.search(d.split("::" + op)[0]):
                s.addr, s.vec = None, U.num(v, i.ops[0], b)
                if len(i.ops) == 1:
                    s.kind, s.val = "default", None
                else:
                    s.kind, s.val = "arg", U.num(v, i.ops[1], b)
                    r = i.ops[1]
                    p = strs.params(d)
                    if "seed_seq" in (p[0] if p else ""):
                        s.kind = "seq"
                    elif p and ENGT.search(p[0]):
                        s.kind = "copy"
                    else:
                        s.kind = "val"
                        s.val = stored(F, r, i, b)
                out.append(s)
            elif n.startswith("llvm.memcpy"):
                z = U.num(v, i.ops[2], b)
                if z is not None and z.const() is not None and z.const() >= 600:
                    s.addr, s.kind, s.val = U.num(v, i.ops[0], b), "copy", U.num(v, i.ops[1], b)
                    copies.append(s)
    mine = {s.addr for s in out if s.addr is not None}
    for s in copies:
        if s.val in mine:
            out.append(s)
    for s in out:                                              # engines copied from a local engine: seeded as that one
        if s.kind == "copy":
            src = [x for x in out if x.addr is not None and x.addr == s.val and x.kind in ("val", "seq")]
            if len(src) == 1:
                s.kind, s.val = src[0].kind, src[0].val
    for s in out:
        if s.kind == "seq":
            c = seqs.get(s.val, [])
            s.val = (c[0][0], c[0][1]) if len(c) == 1 else None
    return out


def stored(F, r, i, b):
    """value behind the pointer handed to a routine: the only store to the local"""
    st = [(j, bb) for bb in F.v.rpo for j in bb.insts if j.op == "store" and j.ops[1] is r]
    st = [x for x in st if F.feasible(x[1])]
    if len(st) == 1:
        return F.num(st[0][0].ops[0], st[0][1])
    return None


def seed_arg(U, t, src):
    """integer arguments the seed value depends on"""
    return {a for a in terms.atoms_of(t) if a[0] == "arg" and U.ints.get(a)}


def varies(U, t, atoms, trials=24):
    """does the value of t depend on the atoms"""
    base = U.dom
    for k in range(trials):
        r = []
        for z in (0, 1):
            def dom(a, u, m, z=z):
                if a in atoms:
                    return float(3 + 11 * z)
                return base(a, u, m)
            try:
                r.append(rnd.Model(k, dom, exact=True).poly(t))
            except (rnd.Undef, OverflowError, ValueError):
                break
        if len(r) == 2 and abs(r[0] - r[1]) > 1e-9 * (1 + abs(r[0])):
            return True
    return False


def collides(U, t, at, n=7):
    """two values of the counter give the same term"""
    for k in range(12):
        seen = {}
        for x in range(n):
            def dom(a, u, m, x=x):
                if a == at:
                    return float(x)
                if a == TEAM or a[0] == "maxthreads":
                    return float(n)
                return U.dom(a, u, m) if a != TID else float(0)
            try:
                r = round(rnd.Model(k, dom, exact=True).poly(t), 6)
            except (rnd.Undef, OverflowError, ValueError):
                return None
            if r in seen:
                return seen[r], x
            seen[r] = x
    return None


def sources(v):
    out = set()
    for b in v.rpo:
        for i in b.insts:
            if is_source(i):
                t = v.term(i)
                if isinstance(t, Poly) and t.atom() is not None:
                    out.add(t.atom())
    return out


def judge_seeds(rep, conf, U, F, sds, src):
    """value of every seeding under a non-negative seed"""
    for s in sds:
        w = fview.where(s.inst)
        if s.kind == "copy" or not F.feasible(s.block):
            continue
        if s.kind == "default":
            rest = [x for x in sds if x is not s and x.addr is not None and x.addr == s.addr and x.kind != "default"]
            if not rest:
                rep.bad(R_SEED, w, "an engine is used with its default state instead of the given seed", None, conf)
            continue
        if s.kind == "val":
            if s.val is None:
                rep.undecided(R_SEED, w, "value of the seed not understood", conf)
                continue
            t = F.int(s.val)
            hit = terms.atoms_of(t) & src
            if hit and varies(U, t, hit):
                rep.bad(R_SEED, w, "the seed is %s even if the given seed is not negative" % terms.show(t)[:200], None, conf)
                continue
            given = {a for a in terms.atoms_of(t) if U.ints.get(a)}
            if not given:
                calls = {a for a in terms.atoms_of(t) if a[0] in ("call", "phi", "fin", "opt", "own", "unk", "any", "ldx", "ld", "arg")}
                if calls:
                    rep.undecided(R_SEED, w, "seed %s" % terms.show(t)[:200], conf)
                else:
                    rep.bad(R_SEED, w, "the seed %s does not come from the given seed" % terms.show(t)[:200], None, conf)
            elif not varies(U, t, given):
                rep.bad(R_SEED, w, "the seed %s does not depend on the given seed" % terms.show(t)[:200], None, conf)
            else:
                rep.ok(R_SEED, w, terms.show(t)[:160], conf)
            streams(rep, conf, U, F, s, t, w)
        elif s.kind == "seq":
            sequence(rep, conf, U, F, s, w, sds)


def streams(rep, conf, U, F, s, t, w):
    if F.R is not None and s.addr is not None and any(a[0] == "alloca" for a in terms.atoms_of(s.addr)):
        at = TID
        items = {a for a in terms.atoms_of(t) if a in F.R.ws or a in F.R.lb or a in F.R.tick or a[0] == "rmw"}
        if items:
            at = sorted(items, key=str)[0]
    elif s.loop is not None and s.addr is not None and s.loop.K.atom() in terms.atoms_of(s.addr) or s.vec is not None and s.loop is not None:
        at = s.loop.K.atom()
    else:
        return
    c = collides(U, t, at)
    if c:
        rep.bad(R_STREAM, w, "the seed %s is the same for %d and %d" % (terms.show(t)[:160], c[0], c[1]), None, conf)
    elif c is None:
        rep.ok(R_STREAM, w, terms.show(t)[:120], conf)


def sequence(rep, conf, U, F, s, w, sds):
    """engines seeded from pieces of a table of numbers drawn from a master engine"""
    if s.val is None or s.val[0] is None or s.val[1] is None or s.loop is None:
        rep.undecided(R_STREAM, w, "pieces of the seed sequence not understood", conf)
        return
    b, e = s.val
    K = s.loop.K.atom()
    if e.const() is not None or b.atom() is not None and b.atom()[0] == "alloca":
        listed(rep, conf, U, F, s, b, w, K)
        return
    if K not in terms.atoms_of(b) and K not in terms.atoms_of(e) and refilled(F, s, b):
        rep.ok(R_STREAM, w, "the piece is filled with new draws for every engine", conf)
        return
    pieces, step, base = None, None, None
    for k in range(6):
        iv = []
        try:
            for x in range(6):
                m = rnd.Model(k, lambda a, u, m, x=x: float(x) if a == K else U.dom(a, u, m), exact=True)
                iv.append((m.poly(b), m.poly(e)))
        except (rnd.Undef, OverflowError, ValueError):
            continue
        pieces = iv
        step = iv[1][0] - iv[0][0]
        if any(hi - lo < 1 for lo, hi in iv):
            rep.bad(R_STREAM, w, "the piece of the seed sequence is empty", None, conf)
            return
        for x in range(6):
            for y in range(x):
                if iv[x][0] < iv[y][1] - 0.5 and iv[y][0] < iv[x][1] - 0.5:
                    rep.bad(R_STREAM, w, "engines %d and %d are seeded from overlapping pieces (%d bytes apart, %d bytes long)" % (y, x, abs(iv[x][0] - iv[y][0]), iv[x][1] - iv[x][0]), None, conf)
                    return
    if pieces is None:
        rep.undecided(R_STREAM, w, "pieces of the seed sequence not understood: %s .. %s" % (terms.show(b)[:100], terms.show(e)[:100]), conf)
        return
    rep.ok(R_STREAM, w, "pieces of %d bytes, %d bytes apart" % (pieces[0][1] - pieces[0][0], step), conf)
    sp = terms_lin(b, K)
    base = sp[1] if sp is not None else None
    if base is None:
        cand = [a for a in terms.atoms_of(b) if a[0] == "ld"]
        if len(cand) != 1:
            return
        base = atom(cand[0])
    step = int(round(step))
    # the table is filled with draws
    v = F.v
    fills = []
    for bb in v.rpo:
        for i in bb.insts:
            if i.op == "store":
                a, x = U.num(v, i.ops[1], bb), U.num(v, i.ops[0], bb)
                if a is None or not terms.atoms_of(base) <= terms.atoms_of(a) or x is None:
                    continue
                L = v.loopof.get(bb)
                if L is not None and L.K.atom() in terms.atoms_of(a):
                    fills.append((i, bb, L, a, x))
    if len(fills) != 1:
        rep.undecided(R_SEED, w, "%d fills of the seed table" % len(fills), conf)
        return
    i, bb, L, a, x = fills[0]
    lin = terms_lin(a, L.K.atom())
    n = v.trip(L)
    draws = {t.atom() for t in (v.term(j) for j in bb.insts if j.op in ("call", "invoke") and call_name(j) and engine_params(j)) if isinstance(t, Poly)}
    if x.atom() is not None and x.atom() in draws:
        rep.ok(R_SEED, fview.where(i), "seed words are draws of the master engine", conf)
    elif not any(z[0] in ("k", "call", "phi", "fin", "opt", "ldx", "ld", "kx", "unk", "any") and z not in U.srcatoms or z[0] == "ld" for z in terms.atoms_of(x)):
        rep.bad(R_STREAM, fview.where(i), "all seed words are the same number %s" % terms.show(x)[:120], None, conf)
    else:
        rep.undecided(R_SEED, fview.where(i), "seed words %s" % terms.show(x)[:120], conf)
    if lin is None or lin[0].const() is None or n is None or not (lin[1] - base).const() == 0:
        rep.undecided(R_SEED, fview.where(i), "extent of the filled seed table", conf)
        return
    need = [z for z in terms.atoms_of(n) if z[0] == "ld"]
    total = n * lin[0]
    if need:
        rep.ok(R_SEED, fview.where(i), "the whole table is filled: %s bytes" % terms.show(total)[:100], conf)
        return
    cnt = v.trip(s.loop)
    if cnt is None:
        return
    want = cnt * P(step)
    for k in range(20):
        m = rnd.Model(k, U.dom, exact=True)
        try:
            if m.poly(total) < m.poly(want) - 0.5:
                rep.bad(R_SEED, fview.where(i), "only %s of %s bytes of the seed table are filled" % (terms.show(total)[:80], terms.show(want)[:80]), None, conf)
                return
        except rnd.Undef:
            pass
    rep.ok(R_SEED, fview.where(i), "the table is filled", conf)


def refilled(F, s, b):
    """the seed words are drawn anew for every engine, by a loop inside the loop over the engines"""
    v, U = F.v, F.U
    fills = []
    for bb in v.rpo:
        for i in bb.insts:
            if i.op == "store" and i.ops[0].ty.startswith("i"):
                a = U.num(v, i.ops[1], bb)
                if a is not None and terms.atoms_of(b) & {x for x in terms.atoms_of(a) if x[0] in ("ld", "alloca", "call")}:
                    fills.append((i, bb, a))
    out = [x for x in fills if x[1] not in s.loop.body]
    ins = [x for x in fills if x[1] in s.loop.body]
    if out or len(ins) != 1:
        return False
    i, bb, a = ins[0]
    L = v.loopof.get(bb)
    n = v.trip(L) if L is not None else None
    if n is None or L is s.loop or L.K.atom() not in terms.atoms_of(a):
        return False
    c = [x for l, x in v.guards(bb) if l is L][0]
    if c is not bdd.T and always(F, c, L, n) is False:
        return False
    x = v.num(v.at(i.ops[0], bb))
    draws = {t.atom() for t in (v.term(j) for j in bb.insts if j.op in ("call", "invoke") and call_name(j) and engine_params(j)) if isinstance(t, Poly)}
    return isinstance(x, Poly) and x.atom() in draws and v.dominates(L.h, s.block)


def listed(rep, conf, U, F, s, b, w, K):
    """seed sequence written down as a list of numbers"""
    v = F.v
    a = b.atom()
    ts = []
    for bb in v.rpo:
        for i in bb.insts:
            if i.op == "store" and i.ops[0].ty.startswith("i") and a is not None:
                t = U.num(v, i.ops[1], bb)
                if t is not None and a in terms.atoms_of(t, deep=False):
                    ts.append(F.num(i.ops[0], bb))
    if not ts or any(t is None for t in ts):
        rep.undecided(R_STREAM, w, "seed sequence not understood", conf)
        return
    at = set().union(*[terms.atoms_of(t) for t in ts])
    hit = at & U.srcatoms
    if hit and any(varies(U, t, hit) for t in ts):
        rep.bad(R_SEED, w, "the seed sequence contains a value of a nondeterministic source", None, conf)
    elif not any(U.ints.get(x) for x in at):
        rep.bad(R_SEED, w, "the seed sequence does not contain the given seed", None, conf)
    elif not any(K in terms.atoms_of(t) or TID in terms.atoms_of(t) for t in ts):
        rep.bad(R_STREAM, w, "all engines are seeded with the same sequence", None, conf)
    else:
        rep.ok(R_STREAM, w, "; ".join(terms.show(t)[:60] for t in ts), conf)


def terms_lin(t, at):
    """t = a*atom + b"""
    r = fview.split_lin(t, at)
    return r if r[0] is not None else None


class Use:
    __slots__ = ("F", "inst", "block", "addr", "pos", "what")


def uses_of(U, R):
    """engine arguments of draws and of the library's own routines, in a region and everything it calls"""
    out = []
    for f in R.fns:
        v = U.view(f)
        bind = R.binds.get(f.name, {})
        for b in v.rpo:
            for i in b.insts:
                if i.op not in ("call", "invoke") or not call_name(i):
                    continue
                for k in engine_params(i):
                    t = U.num(v, i.ops[k], b)
                    if t is None:
                        continue
                    t = sub(t, bind)
                    if any(a[0] in ("own", "unk", "any") for a in terms.atoms_of(t)):
                        continue                                # judged where the engine is chosen
                    u = Use()
                    u.F, u.inst, u.block, u.addr, u.what = f, i, b, t, q_of(i)
                    u.pos = {(b, i)} if f is R.f else R.ctx[f.name][0]
                    out.append(u)
    return out


def dynamic(U, R, b, i):
    """a reason why the schedule decides which thread comes here, and the loop"""
    v = R.v
    for L in v.loops_of(b):
        for K, (WL, (j, kind)) in R.ws.items():
            if WL is L or L.h in WL.body:
                if kind == "dynamic" and not fixed(R, j):
                    return "a worksharing loop without static schedule", WL
        ws = any(WL is L for WL, _ in R.ws.values())
        for c in L.body:
            for j in c.insts:
                if j.op in ("atomicrmw", "cmpxchg") and not ws and v.trip(L) is None:
                    return "work taken from a shared counter", L
                if acquire(j) in ("lock", "critical") and not ws and v.trip(L) is None:
                    return "work taken from a shared container", L
    for j, d in R.singles():
        if b in d and (call_name(j) or "").startswith("__kmpc_single"):
            return "a construct executed by the first thread that arrives", None
    # dispatch loops whose inner loop was not recognised
    for c in v.rpo:
        for j in c.insts:
            if (call_name(j) or "").startswith("__kmpc_dispatch_next") and not fixed(R, j) and v.dominates(c, b) and c is not b and any(c in L.body for L in v.loops_of(b)):
                return "a worksharing loop without static schedule", None
    return None


def fixed(R, j):
    """dispatched loop with a static schedule"""
    for c in R.v.rpo:
        for k in c.insts:
            if (call_name(k) or "").startswith("__kmpc_dispatch_init"):
                s = k.ops[2]
                if isinstance(s, Const) and s.v is not None and (s.v & 0xff) in (33, 34, 65, 66):
                    return True
    return False


def judge_uses(rep, conf, U, F, parent, fork, name):
    R = F.R
    seeds = seedings(F)
    n = 0
    for u in uses_of(U, R):
        n += 1
        w = fview.where(u.inst)
        at = terms.atoms_of(u.addr)
        flat = terms.atoms_of(u.addr, deep=False)
        items = {a for a in at if a[0] == "rmw" or a in R.tick or a in R.lb or a in R.ws}
        local = any(a[0] == "alloca" for a in flat)
        ds = [d for d in (dynamic(U, R, b, i) for b, i in u.pos) if d]
        if local:
            mine = [s for s in seeds if s.addr is not None and s.addr == u.addr and s.kind != "default"]
            if u.F is not R.f:
                continue
            bad = False
            for why, L in ds:
                if L is not None and mine and all(s.block in L.body for s in mine):
                    if all(s.kind == "val" and s.val is not None and TID in terms.atoms_of(s.val) for s in mine):
                        rep.bad(R_ENG, w, "%s: an engine seeded with the thread number serves %s" % (name, why), None, conf)
                        bad = True
                    continue
                rep.bad(R_ENG, w, "%s: an engine of the thread serves %s" % (name, why), None, conf)
                bad = True
                break
            if not bad:
                rep.ok(R_ENG, w, "%s: engine of the thread, fixed share of the work" % name, conf)
            continue
        if items:
            hit = None
            for a in sorted(items, key=str):
                if a not in flat and not any(a in terms.atoms_of(atom(x)) for x in flat):
                    continue
                c = collides(U, u.addr, a)
                if c:
                    hit = a, c
            if hit and len(items) == 1:
                rep.bad(R_ENG, w, "%s: work items %d and %d share an engine" % (name, hit[1][0], hit[1][1]), None, conf)
            elif TID in at and any(why for why, L in ds) and varies(U, u.addr, {TID}):
                rep.bad(R_ENG, w, "%s: the thread number chooses the engine for %s" % (name, ds[0][0]), None, conf)
            else:
                rep.ok(R_ENG, w, "%s: engine of the work item" % name, conf)
            if ds or not hit:
                covered(rep, conf, U, R, parent, fork, u, w, name, items)
            continue
        if TID in at:
            if ds:
                rep.bad(R_ENG, w, "%s: the engine of the thread serves %s" % (name, ds[0][0]), None, conf)
            else:
                rep.ok(R_ENG, w, "%s: engine of the thread, fixed share of the work" % name, conf)
            covered(rep, conf, U, R, parent, fork, u, w, name, set())
            continue
        if any(a[0] in ("phi", "opt", "ldx", "call", "fin", "kx") for a in at):
            rep.undecided(R_ENG, w, "%s: engine %s" % (name, terms.show(u.addr)[:160]), conf)
            continue
        class X: pass
        x = X()
        x.pos = u.pos
        if R.self_single(x):
            rep.ok(R_ENG, w, "%s: one thread draws" % name, conf)
        elif alone(R, u):
            rep.ok(R_ENG, w, "%s: one thread draws" % name, conf)
        else:
            rep.bad(R_ENG, w, "%s: all threads draw from the same engine %s" % (name, terms.show(u.addr)[:120]), None, conf)
    crossed(rep, conf, U, R, name)
    return n


def crossed(rep, conf, U, R, name):
    """an engine of a thread's fixed share is not the engine of work somebody else may take"""
    us = []
    for u in uses_of(U, R):
        t = table(u.addr)
        if t is None:
            continue
        items = {a for a in terms.atoms_of(t[1]) if a[0] == "rmw" or a in R.tick or a in R.lb}
        us.append((u, t, items))
    for x, tx, ix in us:
        if ix or TID not in terms.atoms_of(tx[1]):
            continue
        for y, ty, iy in us:
            if len(iy) != 1 or ty[0] != tx[0]:
                continue
            it = next(iter(iy))
            for team in (2, 3, 4):
                got = {}
                hit = None
                for tid in range(team):
                    def dom(a, u, m):
                        return float(tid) if a == TID else float(team) if a == TEAM or a[0] == "maxthreads" else 0.0 if a[0] == "k" else float(team) if U.ints.get(a) and u is not None else None
                    try:
                        got[round(rnd.Model(1, dom, exact=True).poly(R.f_int(tx[1])))] = tid
                    except (rnd.Undef, OverflowError, ValueError):
                        pass
                for k in range(4):
                    def dom(a, u, m):
                        return float(k) if a == it else float(team) if a == TEAM or a[0] == "maxthreads" else 0.0 if a[0] == "k" else float(team) if U.ints.get(a) and u is not None else None
                    try:
                        z = round(rnd.Model(1, dom, exact=True).poly(R.f_int(ty[1])))
                    except (rnd.Undef, OverflowError, ValueError):
                        continue
                    if z in got and got[z] < team - 1:
                        hit = k, got[z]
                if hit:
                    rep.bad(R_ENG, fview.where(y.inst), "%s: work item %d and the share of thread %d draw from one engine" % ((name,) + hit), None, conf)
                    return


def alone(R, u):
    """the path condition admits one thread only"""
    v = R.v
    for b, i in u.pos:
        c = v.full(b)
        lits = [l for l in bdd.support(c) if isinstance(l[1], Poly) and TID in terms.atoms_of(l[1]) and terms.atoms_of(l[1]) <= {TID, TEAM}]
        c = bdd.exists(c, [l for l in bdd.support(c) if l not in lits])
        for team in (2, 3, 5):
            k = 0
            for tid in range(team):
                m = rnd.Model(1, lambda a, uu, m: float(team) if a == TEAM else float(tid) if a == TID else None, exact=True)
                try:
                    k += bool(m.bdd(c))
                except rnd.Undef:
                    return False
            if k > 1:
                return False
    return True


def table(addr):
    """engine = element of a table: (pointer atom that is loaded, index part)"""
    for m, k in addr.t.items():
        if k == 1 and len(m) == 1:
            a, e = next(iter(m))
            if a[0] == "ld" and isinstance(a[1], Poly) and e == 1:
                return a, addr - atom(a)
    return None


def covered(rep, conf, U, R, parent, fork, u, w, name, items):
    """the table the engine is taken from was seeded before the region"""
    if parent is None:
        return
    addr = R.f_res(u.addr)
    t = table(addr)
    if t is None:
        return
    vec = t[0][1]
    PF = parent
    res = lambda x: terms.subst(x, lambda a: atom(("shared",) + a[1:]) if a[0] == "alloca" else None) if x is not None else None
    ev, other = [], False
    for s in PF.sds:
        a = res(s.addr) if s.addr is not None else None
        if s.vec is not None and res(s.vec) == vec:
            ev.append((s, None))
        elif a is not None:
            ta = table(a)
            if ta is not None and ta[0][1] == vec:
                ev.append((s, ta[1]))
    ev = [(s, i) for s, i in ev if PF.feasible(s.block)]
    if not ev:
        made = any(a[0] == "shared" for a in terms.atoms_of(vec))
        if member(U, PF, vec):
            rep.bad(R_FRESH, w, "%s: the engines are not seeded in this call" % name, None, conf)
        else:
            rep.undecided(R_FRESH, w, "%s: seeding of %s not found" % (name, terms.show(vec)[:80]), conf)
        return
    size = None
    for m, k in t[1].t.items():
        if m:
            size = abs(k) if size is None else min(size, abs(k))
    v = PF.v
    ok = True
    for s, idx in ev:
        if s.loop is None:
            continue
        # executed for every element, before the region
        if fork is not None and not (v.dominates(s.loop.h, fork.bb)):
            ok = False
            rep.bad(R_FRESH, fview.where(s.inst), "%s: the engines are seeded on some paths only" % name, None, conf)
            break
        n = v.trip(s.loop)
        if n is None:
            continue
        c = bdd.F
        for s2, _ in ev:
            if s2.loop is s.loop:
                g = [x for L, x in v.guards(s2.block) if L is s.loop]
                for x in g:
                    c = c | x
        if c is not bdd.T and always(PF, c, s.loop, n) is False:
            ok = False
            rep.bad(R_FRESH, fview.where(s.inst), "%s: some engines keep the state of an earlier call" % name, None, conf)
            break
        # indices in use
        st, off = (P(size), P(0)) if idx is None else (terms_lin(idx, s.loop.K.atom()) or (None, None))
        if st is None or st.const() is None or off.const() is None or items:
            continue
        if off.const() == 0 and whole(n, st, vec, res):
            continue
        for k in range(40):
            m = rnd.Model(k, U.dom, exact=True)
            try:
                x = m.poly(R.f_int(t[1])) if R.f_int else 0
                top = m.poly(n) * float(st.const()) + float(off.const())
                if not (float(off.const()) - 0.5 <= x < top - 0.5) and TEAM not in terms.atoms_of(t[1]):
                    ok = False
                    rep.bad(R_FRESH, w, "%s: engine %s is used, %s are seeded" % (name, terms.show(t[1])[:60], terms.show(n)[:60]), None, conf)
                    break
            except rnd.Undef:
                break
        if not ok:
            break
    if ok:
        rep.ok(R_FRESH, w, "%s: %s seeded before" % (name, terms.show(vec)[:80]), conf)


def member(U, PF, vec):
    """the table is part of an object that lives longer than the call"""
    return any(a[0] == "arg" for a in terms.atoms_of(vec)) and not any(a[0] == "shared" for a in terms.atoms_of(vec))


def always(F, c, L, n):
    """condition on the way through the loop body: false for some element and a non-negative seed?"""
    lits = bdd.support(c)
    known = [l for l in lits if isinstance(l[1], Poly) and all(a[0] in ("k", "maxthreads", "log", "ceil", "max", "min") or F.U.ints.get(a) for a in terms.atoms_of(l[1]))]
    K = L.K.atom()
    for k in range(60):
        m0 = rnd.Model(k, F.U.dom, exact=True)
        try:
            cnt = round(m0.poly(n))
        except (rnd.Undef, OverflowError, ValueError):
            return None
        if cnt < 1:
            continue
        x = min(cnt - 1, int(m0.rnd("element") * cnt))

        def dom(a, u, m, x=x):
            return float(x) if a == K else F.U.dom(a, u, m)
        try:
            m = rnd.Model(k, dom, exact=True)
            r = bdd.restrict(c, {l: bool(m.bdd(bdd.var(l))) for l in known})
        except rnd.Undef:
            return None
        if r is bdd.F:
            return False
        if r is not bdd.T:
            # decided by something else (state of the object): may be skipped
            rest = bdd.support(r)
            if all(isinstance(l[1], Poly) and all(a[0] in ("ld", "ldx", "arg") or a in F.U.ptr for a in terms.atoms_of(l[1])) for l in rest):
                return False
            return None
    return True


# ------------------------------------------------------------------------------------------------- state of earlier calls
def gname(o):
    while isinstance(o, Const) and o.kind == "expr" and o.x:
        o = o.x[0]
    return o.v if isinstance(o, Const) and o.kind == "global" else None


def state(rep, conf, U):
    M = U.M
    names = {g for g, d in M.globals.items() if g and not d["const"] and d["init"] and not g.startswith(("_ZSt", "_ZNSt", "_ZGV", ".", "llvm", "_ZTV", "_ZTI"))}
    acc = {g: [] for g in names}
    for f in M.fns.values():
        if f.decl:
            continue
        ini = f.name.startswith(("_GLOBAL__", "__cxx_global", "_ZTH", "__tls_init"))
        al = {}
        for b in f.blocks:
            for i in b.insts:
                if i.op == "call" and (call_name(i) or "").startswith("llvm.threadlocal.address") and gname(i.ops[0]):
                    al[i] = gname(i.ops[0])
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ("gep", "bitcast") and i not in al and (al.get(i.ops[0]) or gname(i.ops[0])) in names:
                        al[i] = al.get(i.ops[0]) or gname(i.ops[0])
                        ch = True
        at = lambda o: al.get(o) or (gname(o) if gname(o) in names else None)
        for b in f.blocks:
            for i in b.insts:
                if i.op in ("gep", "bitcast") or (call_name(i) or "").startswith(("llvm.threadlocal", "llvm.lifetime", "__cxa_guard", "__cxa_atexit", "__cxa_thread_atexit", "llvm.invariant")):
                    continue
                for k, o in enumerate(i.ops):
                    g = at(o)
                    if g is None or g not in acc:
                        continue
                    if i.op == "load":
                        acc[g].append(("r", f, b, i, ini))
                    elif i.op == "store" and k == 1:
                        acc[g].append(("w", f, b, i, ini))
                    elif i.op in ("atomicrmw", "cmpxchg"):
                        acc[g].append(("rw", f, b, i, ini))
                    elif i.op in ("call", "invoke"):
                        n = call_name(i)
                        if n is None or U.user(n) is not None or n.startswith("__kmpc"):
                            acc[g].append(("esc", f, b, i, ini))
                        elif n.startswith("llvm.mem"):
                            acc[g].append(("w" if k == 0 else "r", f, b, i, ini))
                        else:
                            q = policy.qual(ir.demangle(n))
                            if k == 0 and re.match(r"std::(uniform_\w+|bernoulli|geometric|exponential)_distribution::", q):
                                continue
                            if q.endswith(("mutex::lock", "mutex::unlock", "lock_guard::lock_guard", "lock_guard::~lock_guard", "unique_lock::unique_lock")):
                                continue
                            wr = any(w for kk, w, s in U.effects(n, i) if kk == k)
                            kind = "rw" if wr else "r"
                            if q.split("::")[-1].startswith("~"):
                                continue
                            acc[g].append((kind, f, b, i, ini))
    for g in sorted(names):
        xs = acc[g]
        if not xs:
            continue
        run = [x for x in xs if not x[4] and not guarded(U, x[1], x[2])]
        init = [x for x in xs if not x[4] and guarded(U, x[1], x[2])]
        w = [x for x in run if x[0] in ("w", "rw")]
        r = [x for x in run if x[0] in ("r", "rw") and not selfupdate(x, g)]
        dep = [x for x in init if depends(U, x)]
        if dep and run:
            rep.bad(R_STATE, fview.where(dep[0][3]), "%s keeps what the first call's arguments were" % g, None, conf)
        elif w and r and any(x[0] != "rw" or True for x in r):
            if all(OUT.match(q_of(x[3])) for x in w if x[3].op in ("call", "invoke")) and all(x[3].op in ("call", "invoke") for x in w):
                continue
            rep.bad(R_STATE, fview.where(r[0][3]), "%s is read here and written at %s" % (g, fview.where(w[0][3])), None, conf)
        elif any(x[0] == "esc" for x in run):
            rep.undecided(R_STATE, fview.where(run[0][3]), "%s is handed on" % g, conf)
        else:
            rep.ok(R_STATE, g, "%d accesses" % len(xs), conf)


def guarded(U, f, b):
    """inside of the one-time initialisation of a function-local static"""
    v = U.view(f)
    if b not in v.rpo:
        return True
    acq = [c for c in f.blocks for i in c.insts if (call_name(i) or "").startswith("__cxa_guard_acquire")]
    rel = [c for c in f.blocks for i in c.insts if (call_name(i) or "").startswith("__cxa_guard_release")]
    for a in acq:
        if a in v.rpo and v.dominates(a, b) and any(reaches(v, b, r, a) for r in rel) and (a is not b):
            return True
    return False


def reaches(v, b, r, stop):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x is r:
            return True
        if x in seen or x is stop:
            continue
        seen.add(x)
        todo += v.succ.get(x, ())
    return False


def depends(U, x):
    """the initialisation uses arguments or memory of the first call"""
    kind, f, b, i, ini = x
    v = U.view(f)
    ops = i.ops[:1] if i.op == "store" else [o for o in i.ops[1:]] if i.op in ("call", "invoke") else []
    for o in ops:
        if o.ty == "ptr" and i.op != "store":
            continue
        t = U.num(v, o, b)
        if t is not None and any(a[0] in ("arg", "ld", "ldx") or a == TID or a[0] == "maxthreads" for a in terms.atoms_of(t)):
            return True
    return False


def selfupdate(x, g):
    """the value read only goes back into the same place"""
    kind, f, b, i, ini = x
    if i.op == "atomicrmw":
        return not any(i in j.ops for c in f.blocks for j in c.insts)
    if i.op != "load":
        return False
    todo, seen = [i], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        for c in f.blocks:
            for j in c.insts:
                if y in j.ops:
                    if j.op == "store" and j.ops[0] is y and gname(j.ops[1]) == g:
                        continue
                    if j.op in ("add", "sub", "fadd", "fsub", "mul", "zext", "sext", "trunc", "phi"):
                        todo.append(j)
                    elif j.op in ("call", "invoke") and OUT.match(q_of(j)):
                        continue
                    else:
                        return False
    return True


# ------------------------------------------------------------------------------------------------- sums
FSUM = ("fadd", "fsub", "fmul")


def sums(rep, conf, U, R, name):
    n = 0
    for f in R.fns:
        v = U.view(f)
        lk = U.locks(f)
        red = [b for b in v.rpo for i in b.insts if (call_name(i) or "").startswith("__kmpc_reduce")]
        for b in v.rpo:
            for i in b.insts:
                if i.op == "atomicrmw" and i.ty in ("double", "float"):
                    n += 1
                    rep.bad(R_SUM, fview.where(i), "%s: atomic floating-point accumulation" % name, None, conf)
                if i.op == "cmpxchg":
                    # compare-exchange loop around a floating-point operation
                    if any(j.op in FSUM for c in cycle(v, b) for j in c.insts):
                        n += 1
                        rep.bad(R_SUM, fview.where(i), "%s: atomic floating-point accumulation" % name, None, conf)
                if i.op == "store" and isinstance(i.ops[0], Inst) and i.ops[0].op in FSUM:
                    if not (lk[i] or red and any(v.dominates(r, b) for r in red)):
                        continue
                    a = U.num(v, i.ops[1], b)
                    if a is None or any(x[0] == "alloca" for x in terms.atoms_of(a, deep=False)):
                        continue
                    for o in i.ops[0].ops:
                        if isinstance(o, Inst) and o.op == "load" and U.num(v, o.ops[0], o.bb) == a and not R.picked(a):
                            n += 1
                            rep.bad(R_SUM, fview.where(i), "%s: a sum is accumulated in the order in which the threads arrive" % name, None, conf)
    rep.ok(R_SUM, R.f.dname[:60], "%s: %d accumulations" % (name, n), conf)


def cycle(v, b):
    L = v.loopof.get(b)
    return L.body if L is not None else [b]


SCALING = ("estimateWeightScaling", "estimateWeightScalingThreshold", "scaleWeights")


def c01(rep, tmp, conf, defs, src, part=0, parts=1):
    fview.FView.PUREX = ()
    path = units.SRC + "/" + src if not src.startswith("@") else units.HARN + "/" + src[1:].split("#")[0]
    extra = ["-fopenmp"] + (["-DVH_D=" + src.split("#")[1]] if "#" in src else [])
    M = units.build(tmp, "det" + re.sub(r"\W", "_", src), [path], defs, extra)
    U = DUnit(M)
    rep.unit("%s [%s]" % (src, " ".join(defs) or "debug"))
    rs = regions(M)
    outl = {g.name for _, _, g in rs}
    fs = [f for f in M.fns.values() if not f.decl and "ScopedTimer" not in f.dname.split("(")[0] and (U.user(f.name) is not None or f.name in outl)]
    if part == 0:
        state(rep, conf, U)
    own, par = [], {}
    for f in fs:
        v = U.view(f)
        U.ints.note(v)
    for f, i, g in rs:
        R = Region(U, g, (f, i))
        par[g.name] = (f, i, R)
    src_atoms = set()
    Fs = {}
    for f in fs:
        R = par[f.name][2] if f.name in par else None
        F = Fs[f.name] = Fn(U, f, R)
        src_atoms |= sources(F.v)
        U.accesses(f)
    U.srcatoms = src_atoms
    # sources
    if part == 0:
        T = Taint(U, rep, conf)
        T.run(Fs.values())
        nsrc = 0
        for F in Fs.values():
            for b in F.v.rpo:
                for i in b.insts:
                    if is_source(i) or i in T.feas:
                        nsrc += 1
                        h = T.hits.get(i)
                        if h:
                            for w, what in list(h)[:2]:
                                rep.bad(R_SRC, w, "a value of %s (%s) %s" % (q_of(i) or "an address", fview.where(i), what), None, conf)
                        else:
                            rep.ok(R_SRC, fview.where(i), "%s: %s" % (q_of(i), "used for output only" if F.feasible(i.bb) else "reached with a negative seed only"), conf)
        rep.count("sources of nondeterminism", nsrc)
    for F in Fs.values():
        F.sds = seedings(F)
    k = 0
    for F in Fs.values():
        if k % parts == part:
            judge_seeds(rep, conf, U, F, F.sds, src_atoms)
            numbered(rep, conf, U, F)
            serial(rep, conf, U, F, Fs)
        k += 1
    k = 0
    for g, (f, i, R) in par.items():
        k += 1
        if k % parts != part:
            continue
        name = policy.qual(f.dname)
        PF = Fs.get(f.name)
        n = judge_uses(rep, conf, U, Fs[g], PF, i, name)
        if not name.endswith(SCALING):
            sums(rep, conf, U, R, name)
        rep.count("draws and engine arguments in parallel regions", n)
    rep.ok(R_COVER, src, "%d functions, %d parallel regions" % (len(fs), len(rs)), conf)


def numbered(rep, conf, U, F):
    """a table of engines seeded with numbers: engine t gets seed + t"""
    for s in F.sds:
        if s.kind != "val" or s.loop is None or s.addr is None or s.val is None or not F.feasible(s.block):
            continue
        t = table(s.addr)
        K = s.loop.K.atom()
        if t is None or K not in terms.atoms_of(t[1]):
            continue
        val = F.int(s.val)
        gs = [a for a in terms.atoms_of(val) if a[0] == "arg" and U.ints.get(a)]
        lin = terms_lin(t[1], K)
        if len(gs) != 1 or lin is None or lin[0].const() is None or lin[1].const() is None:
            rep.undecided(R_SEED, fview.where(s.inst), "seed of the table's engines: %s" % terms.show(val)[:120], conf)
            continue
        idx = s.loop.K + P(lin[1].const() / abs(lin[0].const()))
        good = rnd.same(val, atom(gs[0]) + idx, U.dom, 40)
        rep.judge(good, True, R_SEED, fview.where(s.inst), "engine t is seeded with seed + t; here %s" % terms.show(val)[:120], None, conf)


def serial(rep, conf, U, F, Fs):
    """calls outside of parallel regions that draw from a table of engines: seeded before"""
    if F.R is not None:
        return
    v = F.v
    tabs, seen = {}, set()
    for s in F.sds:
        if s.addr is not None and table(s.addr) is not None and s.loop is not None:
            tabs.setdefault(table(s.addr)[0][1], []).append(s)
        elif s.vec is not None and s.loop is not None:
            tabs.setdefault(s.vec, []).append(s)
            if s.vec not in seen and not any(a[0] == "alloca" for a in terms.atoms_of(s.vec)):
                seen.add(s.vec)
                rep.judge(emptied(F, s), True, R_FRESH, fview.where(s.inst), "engines are appended to a table that has been emptied before", None, conf)
    for i, b, g, args, lk in U.accesses(F.f)[1]:
        gv = U.view(g)
        bind = {}
        for k, a in enumerate(args):
            if k < len(g.args) and isinstance(gv.term(g.args[k]), Poly) and gv.term(g.args[k]).atom() is not None and a is not None:
                bind[gv.term(g.args[k]).atom()] = a
        for bb in gv.rpo:
            for j in bb.insts:
                if j.op not in ("call", "invoke") or not call_name(j) or U.user(call_name(j)) is not None:
                    continue
                for k in engine_params(j):
                    t = U.num(gv, j.ops[k], bb)
                    t = table(sub(t, bind)) if t is not None else None
                    if t is None:
                        continue
                    vec = t[0][1]
                    if vec in tabs:
                        bad = [s for s in tabs[vec] if F.feasible(s.block) and not v.dominates(s.loop.h, b)]
                        rep.judge(not bad, True, R_FRESH, fview.where(i), "engines seeded before the call of %s" % policy.qual(g.dname), None, conf)
                        return
                    if any(a[0] == "arg" for a in terms.atoms_of(vec)) and policy.qual(g.dname) != policy.qual(F.f.dname) and not any(x[0] == "alloca" for x in terms.atoms_of(vec)) and not called(U, F.f):
                        rep.bad(R_FRESH, fview.where(i), "engines of %s are not seeded in this call" % policy.qual(g.dname), None, conf)
                        return


def whole(n, st, vec, res):
    """the loop runs over every element of the table: n * stride = end - begin"""
    ld = {}
    for a in terms.atoms_of(n, deep=False):
        if a[0] not in ("ld", "ldx"):
            return False
        at = next((x for x in a[1:] if isinstance(x, Poly)), None)
        if at is None:
            return False
        d = (res(at) - vec).const()
        if d not in (0, 8):
            return False
        ld[d] = atom(a)
    return set(ld) == {0, 8} and n * st == ld[8] - ld[0]


def emptied(F, s):
    """the table the engine is appended to is emptied before the loop, on all paths"""
    v, U = F.v, F.U
    for b in v.rpo:
        if not v.dominates(b, s.loop.h) or b in s.loop.body:
            continue
        for i in b.insts:
            if i.op in ("call", "invoke") and call_name(i) and i.ops and U.num(v, i.ops[0], b) == s.vec:
                op = policy.qual(ir.demangle(call_name(i))).split("::")[-1]
                if op in ("clear", "operator=", "assign", "swap") or op in ("resize", "_M_erase_at_end"):
                    return True
            if i.op == "store" and i.ops[0].ty == "ptr":
                a, x = U.num(v, i.ops[1], b), U.num(v, i.ops[0], b)
                if a is None or x is None:
                    continue
                d = (a - s.vec).const()
                if d == 8:
                    return True
    return False


def called(U, f):
    """has callers in this unit (they seed)"""
    return any(call_name(i) == f.name for h in U.M.fns.values() if not h.decl and h is not f for i in h.insts() if i.op in ("call", "invoke"))
