"""C20: statements that exist in debug builds only must not influence what is computed (ghost code may read everything, but writes ghost state only).

Both configurations are compiled without optimisation, so that every local variable is in memory and every access is explicit. An instruction is ghost
code if the other configuration has no instruction with the same source position, operation, callee and constants.
"""
import os
import re
import ir
import policy
import strs
import units
from core import REPO
from fview import where
from ir import Arg, Const, Inst

R_WRITE = "debug-only code writes only state that nothing but debug-only code reads"
R_VALUE = "no value computed by debug-only code is used elsewhere"
R_FLOW = "debug-only branches rejoin before the next ordinary statement; debug-only code neither returns nor throws"
R_CALL = "debug-only code calls nothing that samples, reports, locks, synchronises or ends the program"
R_REL = "release builds leave out nothing but the far cell pairs of the threshold model"

LAMBDA = re.compile(r"\$_\d+")
PURE = re.compile(r"^(llvm\.(?!mem)|a?(cos|sin|tan)h?f?$|exp|log|pow|sqrt|f(abs|mod|max|min)|ceil|floor|round|trunc|nextafter|hypot|ldexp|frexp|isnan|strlen|memcmp|strcmp|omp_get_|omp_in_|"
                  r"__kmpc_global_thread_num|_Zn[wa]|_Zd[la]|__clang_call_terminate|__cxa_begin_catch|__cxa_end_catch|__gxx|__errno_location|malloc|free|__kmpc_flush|__kmpc_critical|__kmpc_end_critical|abs|labs)")
STOP = ("__assert_fail", "abort", "_ZSt9terminatev")
BAD = re.compile(r"^(__kmpc_(?!global_thread_num|flush|atomic|critical|end_critical)|pthread_|__cxa_throw|__cxa_rethrow|exit$|_exit$|quick_exit|longjmp|omp_set|omp_unset|omp_test)")

OWNER = re.compile(r"^std::(vector|deque|list|map|set|unordered_map|unordered_set|basic_string|__cxx11::basic_string|array)\b")

LIBS = {"girgs": ["girgs"], "hypergirgs": ["hypergirgs"]}


def load(tmp, name, srcs, defs, extra):
    bcs = []
    for k, s in enumerate(srcs):
        out = os.path.join(tmp, "%s.%d.bc" % (name, k))
        ir.clang(s, out, REPO, defs, list(extra))
        bcs.append(out)
    ctx, mod = ir.link(bcs)
    M = ir.load(mod)
    ir.DisposeCtx(ctx)
    for b in bcs:
        os.unlink(b)
    return M


def cname(i):
    return i.x.v if isinstance(i.x, Const) and i.x.kind == "fn" else None


def inrepo(i):
    return bool(i.loc) and os.path.realpath(i.loc[0][0]).startswith(os.path.realpath(REPO) + "/")


def home(f):
    """function written in the repository"""
    for i in f.insts():
        if i.loc:
            return inrepo(i)
    return False


def dtor(i):
    n = cname(i) if i.op in ("call", "invoke") else None
    return n is not None and policy.qual(ir.demangle(n)).split("::")[-1].startswith("~")


def ctor(i):
    n = cname(i) if i.op in ("call", "invoke") else None
    if n is None:
        return False
    p = policy.qual(ir.demangle(n)).split("::")
    return len(p) > 1 and p[-1] == p[-2]


def neutral(i):
    if i.loc is None or i.loc[0][1] == 0 or i.op in ("alloca", "landingpad", "extractvalue", "insertvalue", "resume", "unreachable") or i.op == "br" and not i.ops:
        return True
    n = cname(i) if i.op in ("call", "invoke") else None
    return n is not None and n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias"))


def jump(i):
    """bookkeeping of the compiler for jumps out of a scope (its numbers differ between configurations)"""
    if i.op == "switch":
        return jumpslot(i.ops[0].ops[0]) if isinstance(i.ops[0], Inst) and i.ops[0].op == "load" else False
    return i.op == "store" and jumpslot(i.ops[1])


def jumpslot(a):
    return isinstance(a, Inst) and a.op == "alloca" and all(u.op == "store" and isinstance(u.ops[0], Const) or u.op == "load" and all(w.op == "switch" for w in u.users)
                                                            for u in a.users)


def sig(i):
    cs = ()
    if i.op not in ("gep", "alloca", "phi") and not jump(i) and not (i.op in ("sdiv", "udiv") and i.x):
        n = cname(i) if i.op in ("call", "invoke") else None
        if not (n or "").startswith(("llvm.mem", "__kmpc_fork")):
            cs = tuple((o.ty, o.v) for o in i.ops if isinstance(o, Const) and o.kind in ("int", "fp"))
    x = LAMBDA.sub("$_", cname(i) or "?") if i.op in ("call", "invoke") else i.x if i.op in ("icmp", "fcmp", "atomicrmw") else None
    if i.op in ("call", "invoke"):
        return (i.loc[0], i.col, "call", x, cs)
    return (i.loc[0], i.col, i.op, str(x), cs)


def constref(i, k):
    """the call gets the object as const"""
    n = cname(i)
    if not n or not n.startswith("_Z"):
        return False
    d = ir.demangle(n)
    ps = strs.params(d)
    off = len(i.ops) - len(ps)
    if off < 0:
        return False
    if k >= off:
        return bool(re.search(r"const ?[&*]$", ps[k - off]))
    return k == off - 1 and d.endswith(" const")


class Roots:
    """what may a pointer point to: ("local", alloca) ("param", fn, k) ("global", g) ("field", record, index) ("fresh",)"""

    def __init__(self, M):
        self.M, self.memo, self.kept = M, {}, {}

    def contents(self, f):
        """alloca -> pointers stored in it, by stores or by calls that get it"""
        if f.name not in self.kept:
            d = {}
            for i in f.insts():
                if i.op == "store" and i.ops[0].ty == "ptr":
                    b = self.base(i.ops[1])
                    if isinstance(b, Inst) and b.op == "alloca":
                        d.setdefault(b, []).append(i.ops[0])
                elif i.op in ("call", "invoke") and not (cname(i) or "").startswith(("llvm.lifetime", "llvm.dbg")):
                    for k, o in enumerate(i.ops):
                        b = self.base(o) if o.ty == "ptr" else None
                        if isinstance(b, Inst) and b.op == "alloca" and (k == 0 or not (cname(i) or "").startswith("llvm.mem")) and not constref(i, k) and not OWNER.match(policy.qual(ir.demangle(cname(i) or ""))):
                            for kk, p in enumerate(i.ops):
                                if kk != k and p.ty == "ptr" and not (isinstance(p, Const) and p.kind in ("fn", "null", "undef")):
                                    d.setdefault(b, []).append(p)
            self.kept[f.name] = d
        return self.kept[f.name]

    def base(self, p):
        while isinstance(p, Inst) and (p.op in ("gep", "bitcast", "addrspacecast")):
            p = p.ops[0]
        return p

    def inside(self, b, f, seen=()):
        """places the pointers held by a local point into"""
        if ("b", b) in seen:
            return set()
        if ("b", b) in self.memo:
            return self.memo[("b", b)]
        s2 = seen + (("b", b),)
        r = set()
        for q in self.contents(f).get(b, []):
            r |= self.of(q, f, s2)
            c = self.base(q)
            if isinstance(c, Inst) and c.op == "alloca":
                r |= self.inside(c, f, s2)
        r.discard(("local", f.name, b))
        if not seen:
            self.memo[("b", b)] = r
        return r

    def of(self, p, f, seen=()):
        """places the pointer may point into"""
        if isinstance(p, Arg):
            return {("param", f.name, p.i, False)}
        if isinstance(p, Const):
            return {("global", p.v)} if p.kind in ("global", "str") else set()
        if not isinstance(p, Inst) or p in seen:
            return set()
        if p in self.memo:
            return self.memo[p]
        s2 = seen + (p,)
        if p.op == "alloca":
            r = {("local", f.name, p)}
        elif p.op == "gep":
            if p.rec and not p.rec[0].startswith(("{", "%\"class.std::", "%\"struct.std::", "%class.std::", "%struct.std::", "%\"class.__gnu", "%\"struct.__gnu", "%struct.anon", "%class.anon", "%union", "%struct.ident")):
                r = {("field",) + p.rec}
            else:
                r = self.of(p.ops[0], f, s2)
        elif p.op == "load":
            b = self.base(p.ops[0])
            if isinstance(b, Inst) and b.op == "alloca":
                r = self.inside(b, f, s2)
            else:
                r = {x[:3] + (True,) if x[0] == "param" else x for x in self.of(p.ops[0], f, s2)}
        elif p.op in ("phi", "select"):
            r = set()
            for o in p.ops:
                if o.ty == "ptr":
                    r |= self.of(o, f, s2)
        elif p.op in ("call", "invoke"):
            r = {("fresh",)}
            for o in p.ops:
                if o.ty == "ptr":
                    r |= self.of(o, f, s2)
                    b = self.base(o)
                    if isinstance(b, Inst) and b.op == "alloca":     # a pointer the object holds (iterator, capture)
                        r |= self.inside(b, f, s2)
        elif p.op in ("extractvalue", "inttoptr"):
            r = set()
        else:
            r = set()
        if not seen:
            self.memo[p] = r
        return r


def streams(n):
    return "basic_ostream" in ir.demangle(n) or "basic_ios" in ir.demangle(n)


def at(self, p, f, deep):
    """the object a pointer points to, or what that object points to"""
    out = set()
    for r in self.of(p, f):
        if not deep:
            out.add(r)
        elif r[0] == "local" and r[1] == f.name:
            out |= self.inside(r[2], f)
        else:
            out.add(r[:3] + (True,) if r[0] == "param" else r)
    return out


Roots.at = at


class Effects:
    """per function: places written / read, in terms of its parameters; only(i): the instructions that count"""

    def __init__(self, M, R):
        self.M, self.R, self.memo, self.busy = M, R, {}, set()
        self.rev = {}

    def writes(self, i, f):
        """places an instruction writes -> set of roots, set of external effects"""
        R = self.R
        if i.op == "store":
            return R.of(i.ops[1], f), set()
        if i.op in ("atomicrmw", "cmpxchg"):
            return R.of(i.ops[0], f), set()
        if i.op not in ("call", "invoke"):
            return set(), set()
        n = cname(i)
        if n is None:
            return set(), {"a call through a pointer"}
        if n in STOP or PURE.match(n) or streams(n) or n.startswith("_ZSt") and "__throw_" in n or n.startswith("__kmpc_fork"):
            if n.startswith("__kmpc_fork"):
                return set(), {n}
            return set(), set()
        if n.startswith("llvm.mem"):
            return R.of(i.ops[0], f), set()
        if BAD.match(n):
            return set(), {n}
        g = self.M.fns.get(n)
        if g is None or g.decl:
            ps = strs.params(ir.demangle(n)) if n.startswith("_Z") else None
            out = set()
            off = len(i.ops) - len(ps) if ps is not None and len(i.ops) >= len(ps) else 0
            cm = ir.demangle(n).endswith(" const")
            for k, o in enumerate(i.ops):
                if o.ty != "ptr":
                    continue
                if ps is not None and k >= off and k - off < len(ps) and "const" in ps[k - off]:
                    continue
                if ps is not None and k < off and cm:
                    continue
                out |= R.of(o, f)
            return out, set() if ps is not None else {n}
        w, e = self.summary(g)
        return self.up(w, i, f), e

    def up(self, roots, i, f, shift=0):
        out = set()
        for r in roots:
            if r[0] == "param":
                k = r[2] + shift
                if 0 <= k < len(i.ops):
                    out |= self.R.at(i.ops[k], f, r[3])
            else:
                out.add(r)
        return out

    def summary(self, g):
        if g.name in self.memo:
            return self.memo[g.name]
        if g.name in self.busy:
            return set(), set()
        self.busy.add(g.name)
        w, e = set(), set()
        for i in g.insts():
            a, b = self.writes(i, g)
            w |= {r for r in a if r[0] not in ("local", "fresh")}
            e |= b
        self.busy.discard(g.name)
        self.memo[g.name] = (w, e)
        return w, e


def record_of(f):
    p = policy.qual(f.dname).split("::")
    return p


def special(f):
    """constructor, destructor, assignment"""
    p = policy.qual(f.dname).split("::")
    return len(p) > 1 and (p[-1] == p[-2] or p[-1].startswith("~") or p[-1] == "operator=")


def c20(rep, tmp, conf, defs, name, srcs):
    extra = ["-fopenmp"]
    try:
        D = load(tmp, name + "d", srcs, [], extra)
        N = load(tmp, name + "n", srcs, ["NDEBUG"], extra)
    except ir.AnalysisError as e:
        rep.undecided(R_WRITE, name, str(e), conf)
        return
    sigs = []
    for M in (D, N):
        sigs.append({sig(i) for f in M.fns.values() if not f.decl for i in f.insts() if inrepo(i) and not neutral(i)})
    R = Roots(D)
    E = Effects(D, R)
    fs = [f for f in D.fns.values() if not f.decl and home(f)]
    ghost = {i for f in fs for i in f.insts() if inrepo(i) and not neutral(i) and sig(i) not in sigs[1]}
    ch = True
    while ch:                                                # a merge of values, one of them computed by or chosen by ghost code
        ch = False
        for f in fs:
            for i in f.insts():
                if i.op in ("phi", "select") and i not in ghost and any(o in ghost for o in i.ops if isinstance(o, Inst)):
                    ghost.add(i)
                    ch = True
                elif i.op == "phi" and i not in ghost and any(b.term in ghost for b in i.x):
                    ghost.add(i)
                    ch = True
    allg = {f.name for f in fs if all(neutral(i) or i in ghost or not inrepo(i) for i in f.insts())}      # functions of debug builds only
    sites = {}
    for f in D.fns.values():
        if f.decl:
            continue
        for i in f.insts():
            if i.op in ("call", "invoke"):
                n = cname(i)
                if n and n.startswith("__kmpc_fork"):
                    g = next((o.v for o in i.ops if isinstance(o, Const) and o.kind == "fn"), None)
                    first = next((k for k, o in enumerate(i.ops) if isinstance(o, Const) and o.kind == "fn"), 0) + 1
                    sites.setdefault(g, []).append((f, i, first - 2))
                elif n:
                    sites.setdefault(n, []).append((f, i, 0))
    both = {(i.loc[0], i.col) for f in N.fns.values() if not f.decl for i in f.insts() if i.op == "br" and i.loc}
    # what ordinary code reads
    reads = Reads(D, R, E, ghost, allg)
    n = 0
    for f in fs:
        gs = [i for i in f.insts() if i in ghost]
        if not gs or f.name in allg:
            continue
        n += 1
        good = True
        for i in gs:
            w, e = E.writes(i, f)
            for x in sorted(e):
                if not x.startswith("__kmpc_fork"):
                    good = False
                    rep.bad(R_CALL, where(i), "%s: debug-only code reaches %s" % (policy.qual(f.dname), ir.demangle(x)), None, conf)
            for r in w:
                bad = judge(r, f, reads, sites, set())
                if bad:
                    good = False
                    rep.bad(R_WRITE, where(i), "%s: debug-only code writes %s, which is read at %s" % (policy.qual(f.dname), show(r), bad), None, conf)
            for u in i.users:
                if u.op in ("call", "invoke") and (cname(u) or "").startswith("__kmpc_fork"):
                    continue
                if u not in ghost and not neutral(u) and not dtor(u) and inrepo(u):
                    good = False
                    rep.bad(R_VALUE, where(u), "%s: uses a value computed at %s" % (policy.qual(f.dname), where(i)), None, conf)
            if i.op in ("br", "switch") and len(i.bb.succs) > 1:
                ex = exits(i, ghost, both)
                if len(ex) > 1:
                    good = False
                    rep.bad(R_FLOW, where(i), "%s: the debug-only branch continues at %s" % (policy.qual(f.dname), " or ".join(sorted((where(x) if x.loc else "the next statement") if x != "ret" else "return" for x in ex))[:200]), None, conf)
            if i.op == "ret":
                good = False
                rep.bad(R_FLOW, where(i), "%s: debug-only return" % policy.qual(f.dname), None, conf)
        if good:
            rep.ok(R_WRITE, f.dname[:80], "%d debug-only instructions" % len(gs), conf)
    rep.count("functions with debug-only code", n)
    rep.count("debug-only instructions", len(ghost))
    rep.units += ["%s: %d functions" % (name, len(fs))]
    release(rep, conf, N, sigs[0])


def show(r):
    if r[0] == "local":
        return "the local at %s" % where(r[2]) if r[2].loc else "a local of %s" % ir.demangle(r[1])
    if r[0] == "param":
        return "memory of argument %d of %s" % (r[2], ir.demangle(r[1])[:60])
    if r[0] == "field":
        return "member %s of %s" % (r[2], r[1])
    return str(r[1:])


class Reads:
    """places ordinary code reads: (root) -> where"""

    def __init__(self, M, R, E, ghost, allg):
        self.at = {}
        self.R = R
        for f in M.fns.values():
            if f.decl or f.name in allg:
                continue
            for i in f.insts():
                if i in ghost:
                    continue
                if i.op in ("load", "atomicrmw", "cmpxchg"):
                    for r in R.of(i.ops[0], f):
                        self.note(r, i, f)
                elif i.op in ("call", "invoke"):
                    n = cname(i)
                    if n is None or n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.prefetch", "__kmpc_fork")) or dtor(i):
                        continue
                    g = M.fns.get(n)
                    if g is not None and not g.decl and home(g):
                        continue                             # its own reads are noted there
                    for k, o in enumerate(i.ops):
                        if o.ty != "ptr" or k == 0 and (ctor(i) or n.startswith(("llvm.memset", "llvm.memcpy"))):
                            continue
                        for r in R.of(o, f):
                            self.note(r, i, f)

    def note(self, r, i, f):
        if r[0] == "field" and special(f):
            return
        self.at.setdefault(r, where(i) if i.loc else f.dname[:60])


def judge(r, f, reads, sites, seen):
    """a place debug-only code writes: where does ordinary code read it?"""
    if r in seen or r[0] == "fresh":
        return None
    seen.add(r)
    if r in reads.at:
        return reads.at[r]
    if r[0] == "param":
        g = r[1]
        cs = sites.get(g)
        if not cs:
            return "the callers of the library"
        for cf, i, sh in cs:
            k = r[2] + sh
            if 0 <= k < len(i.ops) and i.ops[k].ty == "ptr":
                for x in reads.R.at(i.ops[k], cf, r[3]):
                    b = judge(x, cf, reads, sites, seen)
                    if b:
                        return b
    return None


def exits(br, ghost, both):
    out, seen = set(), set()
    todo = list(br.bb.succs)
    if br.op == "invoke":
        todo = todo[:1]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for i in b.insts:
            if i.op == "ret":
                out.add("ret")
                break
            if i.op == "unreachable":
                break
            if jump(i) and i.op == "store" and i not in ghost and b.term.op == "br" and b.term.loc and (b.term.loc[0], b.term.col) in both:
                out.add(i)
                break
            if neutral(i) or i in ghost:
                continue
            if i.op == "load" and not i.users:
                continue
            out.add(i)
            break
        else:
            t = b.insts[-1]
            if t.op == "unreachable":
                continue
            todo += b.succs[:1] if t.op == "invoke" else b.succs
    return out


def release(rep, conf, N, dsigs):
    """instructions only release builds have: nothing but a return for far pairs in the threshold model"""
    for f in N.fns.values():
        if f.decl or not home(f):
            continue
        only = [i for i in f.insts() if inrepo(i) and not neutral(i) and sig(i) not in dsigs]
        if not only:
            continue
        R = Roots(N)
        E = Effects(N, R)
        good = True
        brs = 0
        for i in only:
            w, e = E.writes(i, f)
            w = {r for r in w if r[0] != "fresh" and not (r[0] == "local" and all(u in only or neutral(u) for u in r[2].users))}
            if i.op == "store" and isinstance(i.ops[0], Const) and result_slot(i.ops[1]):
                if any(not isinstance(u.ops[0], Const) or u.ops[0].v != i.ops[0].v for u in i.ops[1].users if u.op == "store"):
                    good = False
                    rep.undecided(R_REL, where(i), "%s: release builds return early with a constant" % policy.qual(f.dname), conf)
                continue
            if w or e or i.op == "ret":
                good = False
                rep.bad(R_REL, where(i), "%s: a statement that only release builds execute changes state" % policy.qual(f.dname), None, conf)
            elif i.op == "br":
                brs += 1
                c = i.ops[0]
                neg = False
                while isinstance(c, Inst):
                    if c.op == "xor":
                        c, neg = c.ops[0], not neg
                    elif c.op in ("trunc", "zext"):
                        c = c.ops[0]
                    elif c.op == "load" and isinstance(c.ops[0], Inst) and c.ops[0].op == "alloca":
                        st = [u for u in c.ops[0].users if u.op == "store" and u.ops[1] is c.ops[0]]
                        if len(st) != 1:
                            break
                        c = st[0].ops[0]
                    else:
                        break
                ok = isinstance(c, Inst) and c.op == "fcmp" and c.x in ("oeq", "une", "one", "ueq") and any(special_value(o) for o in c.ops) and \
                    any(isinstance(o, Inst) and o.op == "load" and any(r[0] == "field" for r in R.of(o.ops[0], f)) for o in c.ops)
                if ok:
                    eq = (c.x in ("oeq", "ueq")) != neg                # true edge taken in the threshold model
                    side = i.bb.succs[0] if eq else i.bb.succs[1]
                    ok = leaves(side)
                if not ok:
                    good = False
                    rep.bad(R_REL, where(i), "%s: release builds branch on something else than the threshold model" % policy.qual(f.dname), None, conf)
            else:
                for u in i.users:
                    if u not in only and not neutral(u) and inrepo(u):
                        good = False
                        rep.bad(R_REL, where(u), "%s: the value computed here depends on the build configuration" % policy.qual(f.dname), None, conf)
        if good and brs:
            rep.ok(R_REL, f.dname[:80], "%d release-only branches, returning early in the threshold model" % brs, conf)


def result_slot(a):
    """local variable that holds the value returned and nothing else"""
    if not (isinstance(a, Inst) and a.op == "alloca"):
        return False
    for u in a.users:
        if u.op == "load":
            us = list(u.users)
            while us:
                x = us.pop()
                if x.op in ("trunc", "zext", "sext"):
                    us += x.users
                elif x.op != "ret":
                    return False
        elif not (u.op == "store" and u.ops[1] is a) and not neutral(u):
            return False
    return True


def special_value(o):
    if isinstance(o, Const) and o.kind == "fp":
        return o.v == 0 or str(o.v) in ("inf", "+inf")
    return isinstance(o, Inst) and o.op in ("call", "invoke") and "infinity" in (cname(o) or "")


def leaves(b):
    """nothing but clean-up up to the end of the function"""
    seen = set()
    while b not in seen:
        seen.add(b)
        for i in b.insts:
            if i.op == "ret":
                return True
            if neutral(i) or dtor(i) or i.op == "load":
                continue
            if i.op == "store" and isinstance(i.ops[0], Const) or i.op == "switch":
                continue
            return False
        if not b.succs:
            return False
        b = b.succs[0]
    return False
