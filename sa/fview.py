"""Symbolic view of one SSA function: canonical terms for values, control conditions for blocks, loop domains.

Everything here is a dataflow computation over the SSA graph (global value numbering in an algebraic domain, plus
control-dependence conditions kept as BDDs). No path is enumerated and nothing is executed.
"""
from fractions import Fraction as Fr
import re
import bdd
import terms
from terms import Poly, P, atom, ZERO
from ir import Const, Arg, Inst, AnalysisError, demangle
from policy import qual

M32 = 1 << 32


_short = {}


def short(n):
    """short readable tag of a function for symbolic names"""
    r = _short.get(n)
    if r is None:
        r = qual(demangle(n)).split("::")[-1] if n.startswith("_Z") else n
        if ".omp_outlined" in n:
            r = qual(demangle(n.split(".omp_outlined")[0])).split("::")[-1] + ".omp" + n.split(".omp_outlined")[1]
        k, base = 1, r
        while r in _short.values():
            k += 1
            r = "%s~%d" % (base, k)
        _short[n] = r
    return r


class Loop:
    __slots__ = ("h", "body", "latches", "parent", "K", "N", "Nsrc", "depth", "exits", "contlit", "par", "tag")

    def __repr__(self):
        return "<loop bb%d>" % self.h.id


class Call:
    """a call site seen by the view"""
    __slots__ = ("inst", "callee", "q", "args", "view", "res")

    def __repr__(self):
        return "call %s" % (self.q or self.callee)


F32 = re.compile(r"^_ZSt\d+([a-z0-9]+?)f$")


class FView:
    def __init__(self, fn, args=None, tag=(), parent=None, ldmap=None):
        self.fn, self.tag, self.parent = fn, tag, parent
        self.sid = short(fn.name)
        self.argv = args
        self.ldmap = ldmap            # optional: address Poly -> Poly/None, resolves initial memory
        self._t = {}
        self._busy = set()
        self._rc = {}
        self.notes = []
        self.recur = {}               # opaque loop phi atom -> (loop, init value, next value)
        self._stores = None
        self._cfg()
        self._alloca_info()
        for b in self.rpo:            # loop phis first: evaluation always starts at the phi of a cycle
            if b in self.loops:
                for i in b.insts:
                    if i.op == "phi":
                        self.term(i)

    # ------------------------------------------------------------------ control flow
    def dead_block(self, b):
        """assertion failure / unreachable, not a thrown exception"""
        if b.term.op != "unreachable":
            return False
        for i in b.insts:
            if i.op == "call" and i.x.kind == "fn" and i.x.v in ("__cxa_throw", "__cxa_rethrow", "exit", "abort", "_ZSt9terminatev"):
                return i.x.v in ("_ZSt9terminatev",)
            if i.op == "call" and i.x.kind == "fn" and i.x.v == "__assert_fail":
                return True
        return True

    def _cfg(self):
        fn = self.fn
        self.dead = {b for b in fn.blocks if self.dead_block(b)}
        self.succ = {b: [s for s in dict.fromkeys(b.succs) if s not in self.dead] for b in fn.blocks}
        seen, order = set(), []
        stack = [(fn.blocks[0], iter(self.succ[fn.blocks[0]]))]
        seen.add(fn.blocks[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = None
                for p in self.pred[b]:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            a, c = p, n
                            while a is not c:
                                while self.rpon[a] > self.rpon[c]:
                                    a = idom[a]
                                while self.rpon[c] > self.rpon[a]:
                                    c = idom[c]
                            n = a
                if idom.get(b) is not n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    l = self.loops.get(s)
                    if l is None:
                        l = Loop()
                        l.h, l.body, l.latches, l.parent = s, {s}, [], None
                        l.K = atom(("k",) + self.tag + (self.sid, s.id))
                        l.N = l.Nsrc = l.contlit = None
                        l.par = None
                        self.loops[s] = l
                    l.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in l.body:
                            l.body.add(x)
                            st.extend(self.pred[x])
        ls = sorted(self.loops.values(), key=lambda l: len(l.body))
        self.loopof = {}
        for l in ls:
            for b in l.body:
                self.loopof.setdefault(b, l)
        for l in ls:
            for m in ls:
                if m is not l and l.h in m.body and len(m.body) > len(l.body):
                    l.parent = m
                    break
        for l in ls:
            l.exits = [(b, s) for b in l.body for s in self.succ[b] if s not in l.body]
            d, p = 1, l.parent
            while p:
                d, p = d + 1, p.parent
            l.depth = d
        # irreducible control flow is not expected from structured C++
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpon[s] <= self.rpon[b] and not self.dominates(s, b):
                    raise AnalysisError("irreducible control flow in " + self.fn.dname)

    def dominates(self, a, b):
        while True:
            if a is b:
                return True
            n = self.idom.get(b)
            if n is None or n is b:
                return False
            b = n

    def loops_of(self, b):
        """outermost first"""
        out = []
        l = self.loopof.get(b)
        while l:
            out.append(l)
            l = l.parent
        return out[::-1]

    # ------------------------------------------------------------------ conditions
    def edge_cond(self, b, s):
        t = b.term
        if len(self.succ[b]) == 1:
            return bdd.T
        if t.op == "br":
            c = self.cond(t.ops[0])
            r = bdd.F
            if t.bb.succs[0] is s:
                r = r | c
            if t.bb.succs[1] is s:
                r = r | ~c
            return r
        if t.op == "switch":
            v = self.term(t.ops[0])
            r, other = bdd.F, bdd.F
            for k, tgt in zip(t.x, b.succs[1:]):
                e = bdd.eq0(v - P(k))
                if tgt is s:
                    r = r | e
                other = other | e
            if b.succs[0] is s:
                r = r | ~other
            return r
        return bdd.var(("edge",) + self.tag + (self.sid, b.id, s.id))

    def cond(self, v):
        """i1 value -> BDD"""
        t = self.term(v)
        if isinstance(t, Poly):
            c = t.const()
            if c is not None:
                return bdd.T if c else bdd.F
            return self.truth(t)
        return t

    def truth(self, t):
        """Poly holding a 0/1 value -> BDD"""
        if not isinstance(t, Poly):
            return t
        a = t.atom()
        if a and a[0] == "ite":
            return bdd.ite(a[1], self.truth(a[2]), self.truth(a[3]))
        return ~bdd.eq0(t)

    def rc(self, b):
        """condition under which b runs, relative to one iteration of its innermost loop (or to the function entry)"""
        r = self._rc.get(b)
        if r is not None:
            return r
        L = self.loopof.get(b)
        if b is self.rpo[0] or (L and L.h is b):
            self._rc[b] = bdd.T
            return bdd.T
        r = bdd.F
        done = set()
        for p in self.pred[b]:
            lp = self.loopof.get(p)
            if lp is L:
                r = r | (self.rc(p) & self.edge_cond(p, b))
            else:
                # p leaves an inner loop: climb to the loop directly inside L
                q = lp
                while q.parent is not L:
                    q = q.parent
                if q in done:
                    continue
                done.add(q)
                r = r | (self.entry_cond(q, L) & self.exit_cond(q, b))
        self._rc[b] = r
        return r

    def entry_cond(self, q, L):
        r = bdd.F
        for p in self.pred[q.h]:
            if p in q.body:
                continue
            lp = self.loopof.get(p)
            if lp is L:
                r = r | (self.rc(p) & self.edge_cond(p, q.h))
            else:
                q2 = lp
                while q2.parent is not L:
                    q2 = q2.parent
                r = r | (self.entry_cond(q2, L) & self.exit_cond(q2, q.h))
        return r

    def exit_cond(self, q, b):
        """condition under which loop q is left towards b"""
        tg = {s for _, s in q.exits}
        if len(tg) <= 1:
            return bdd.T
        tg = {self._skip(s) for s in tg}
        if len(tg) <= 1:
            return bdd.T
        return bdd.var(("exit",) + self.tag + (self.sid, q.h.id, b.id))

    def _skip(self, b):
        while len(self.succ[b]) == 1 and len(b.insts) == 1:
            b = self.succ[b][0]
        return b

    def guards(self, b):
        """[(loop or None, condition)] from the function entry down to b"""
        out = []
        cur = b
        L = self.loopof.get(b)
        while True:
            c = self.rc(cur) if not (L and cur is L.h) else bdd.T
            out.append((L, c))
            if L is None:
                break
            q, L = L, L.parent
            # block that represents reaching loop q in L
            out.append(("enter", q, self.entry_cond(q, L)))
            # continue upwards: conditions up to the entry are already in entry_cond
            if L is None:
                break
            cur = L.h
        res = []
        for x in out:
            if x[0] == "enter":
                res.append((x[1].parent, x[2]))
            else:
                res.append(x)
        return res[::-1]

    def full(self, b):
        """conjunction of all guards of b, loop domain literals included"""
        r = bdd.T
        for _, c in self.guards(b):
            r = r & c
        return r

    # ------------------------------------------------------------------ loops
    def trip(self, L):
        """(N, kind): iteration k of the loop body runs iff 0 <= k < N, decided by the only exit test"""
        if L.Nsrc is not None:
            return L.N
        L.Nsrc = "?"
        ex = [e for e in L.exits]
        if len(ex) != 1:
            hx = [e for e in ex if e[0] is L.h]
            if len(hx) != 1:
                return None
            ex = hx
        b, s = ex[0]
        ins = [x for x in self.succ[b] if x in L.body]
        if len(ins) != 1 or self.loopof[b] is not L:
            return None
        if b is not L.h and self.rc(b) is not bdd.T:
            return None
        c = self.edge_cond(b, ins[0])
        sg = bdd.single(c)
        n = None
        Ka = L.K.atom()
        if sg is not None:
            lit, pos = sg
            if lit[0] in ("igt0", "gt0", "eq0"):
                p = lit[1]
                a, r = split_lin(p, Ka)
                if a is not None and a.t:
                    if lit[0] == "eq0" and not pos:
                        n = (-r) / a
                    elif lit[0] == "eq0" and pos and not r.t:
                        n = P(1)                                 # runs only while the counter is 0
                    elif lit[0] == "igt0" and a.const() is not None:
                        ac = a.const()
                        if pos and ac < 0:                       # r - |a| k > 0
                            n = r if ac == -1 else ceil_div(r, -ac)
                        elif not pos and ac > 0:                 # a k + r <= 0
                            n = (P(1) - r) if ac == 1 else ceil_div(P(1) - r, ac)
        if n is not None:
            if b is not L.h and b in L.latches and len(L.latches) == 1 and b is not L.h:
                # bottom test: the body runs once more than the test succeeds
                if L.h is not b:
                    n = n + P(1)
            L.N, L.Nsrc, L.contlit = n, "test", (lit, pos)
        return L.N

    def strip_dom(self, b):
        """guards of b without the loop continuation tests: ([(K, N)], condition) ; N None if unknown"""
        doms, cond = [], bdd.T
        lits = {}
        for L in self.loops_of(b):
            n = self.trip(L)
            doms.append((L, n))
            if n is not None and L.contlit:
                lits[L.contlit[0]] = L.contlit[1]
        for _, c in self.guards(b):
            cond = cond & bdd.restrict(c, lits)
        return doms, cond

    # ------------------------------------------------------------------ values
    def at(self, v, b):
        """term of v as seen from block b (values leaving a loop get their final value)"""
        t = self.term(v)
        if isinstance(v, Inst) and v.op != "alloca":
            lv = self.loops_of(v.bb)
            lb = self.loops_of(b)
            for L in reversed(lv):
                if L in lb:
                    break
                t = self.final(t, L, v)
        return t

    def final(self, t, L, v):
        n = self.trip(L)
        Ka = L.K.atom()
        if not isinstance(t, Poly):
            nc = n.const() if n is not None else None
            if nc is not None and 0 < nc <= 8 and len(L.exits) == 1 and L.exits[0][0] is L.h:
                return self.unroll(t, L, int(nc))

            def lit(l):
                if Ka in terms.atoms_of(P(("x", l))):
                    return bdd.var(("fin", L.h.id, l))
                return None
            return bdd.compose(t, lit)
        at = terms.atoms_of(t)
        if Ka not in at and not any(a in self.recur and self.recur[a][0] is L for a in at):
            return t
        nc = n.const() if n is not None else None
        if nc is not None and 0 < nc <= 8 and len(L.exits) == 1 and L.exits[0][0] is L.h:
            return self.unroll(t, L, int(nc))
        if n is not None and len(L.exits) == 1:
            k = n if isinstance(v, Inst) and v.bb is L.h and v.op == "phi" or L.exits[0][0] is L.h else n - P(1)
        else:
            k = atom(("kx",) + self.tag + (self.sid, L.h.id))

        def f(a):
            if a == Ka:
                return k
            if a in self.recur and self.recur[a][0] is L:
                return atom(("fin", a))
            return None
        return terms.subst(t, f)

    def unroll(self, t, L, n):
        """value after n iterations of a loop with a constant trip count: the recurrences are composed symbolically"""
        Ka = L.K.atom()
        rec = {a: r for a, r in self.recur.items() if r[0] is L}
        st = {a: r[1] for a, r in rec.items()}

        def put(x, k):
            def f(a):
                if a == Ka:
                    return P(k)
                if a in st:
                    s = st[a]
                    return s if isinstance(s, Poly) else self.num(s)
                return None

            def fl(l):
                if l[0] == "eq0":
                    b = l[1].atom()
                    if b in st:
                        s = st[b]
                        s = s if not isinstance(s, Poly) else self.truth(s) if s.const() is None else (bdd.T if s.const() else bdd.F)
                        return ~s
                return bdd.subst_lit(l, lambda p: terms.subst(p, f))
            if isinstance(x, Poly):
                return terms.subst(x, f)
            return bdd.compose(x, fl)
        for k in range(n):
            nx = {a: put(r[2], k) for a, r in rec.items() if r[2] is not None}
            st = {a: nx.get(a, atom(("lost",))) for a in rec}
        return put(t, n)

    def term(self, v):
        if isinstance(v, Const):
            return self.constant(v)
        if isinstance(v, Arg):
            if self.argv is not None and v.i < len(self.argv) and self.argv[v.i] is not None:
                return self.argv[v.i]
            if v.ty == "i1":
                return ~bdd.eq0(atom(("arg",) + self.tag + (self.sid, v.i)))
            return atom(("arg",) + self.tag + (self.sid, v.i))
        r = self._t.get(v)
        if r is not None:
            return r
        if v in self._busy:
            return self.opaque(v, "cyc")
        self._busy.add(v)
        try:
            r = self._term(v)
        finally:
            self._busy.discard(v)
        if r is None:
            r = self.opaque(v)
        if v.ty == "i1" and isinstance(r, Poly):
            r = self.truth(r) if r.const() is None else (bdd.T if r.const() else bdd.F)
        self._t[v] = r
        return r

    def opaque(self, v, why="val"):
        a = (why,) + self.tag + (self.sid, v.id)
        return ~bdd.eq0(atom(a)) if v.ty == "i1" else atom(a)

    def constant(self, c):
        k = c.kind
        if k == "int":
            if c.ty == "i1":
                return bdd.T if c.v else bdd.F
            n = c.v
            w = int(c.ty[1:])
            if n >= 1 << (w - 1):
                n -= 1 << w
            return P(n)
        if k == "fp":
            return P(float(c.v))
        if k in ("null", "zero"):
            return ZERO
        if k == "undef":
            return atom(("undef",))
        if k == "fn":
            return atom(("fn", c.v))
        if k == "global":
            return atom(("g", c.v))
        if k == "expr" and c.v == "gep":
            b, off, var = c.x
            r = self.constant(b) + P(off)
            for i, s in var:
                r = r + self.constant(i) * P(s)
            return r
        if k == "expr" and c.x and c.v in ("bitcast", "ptrtoint", "inttoptr"):
            return self.constant(c.x[0])
        return atom(("const", str(c.v)))

    def ops(self, v):
        return [self.at(o, v.bb) for o in v.ops]

    def num(self, t):
        if isinstance(t, Poly):
            return t
        return terms.ite(t, P(1), ZERO) if t not in (bdd.T, bdd.F) else P(1 if t is bdd.T else 0)

    def _term(self, v):
        op = v.op
        if op == "phi":
            return self._phi(v)
        if op == "alloca":
            return atom(("alloca",) + self.tag + (self.sid, v.id))
        if op == "load":
            return self._load(v)
        if op == "call":
            return self._call(v)
        if op == "select":
            c = self.cond(v.ops[0])
            a, b = self.at(v.ops[1], v.bb), self.at(v.ops[2], v.bb)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return bdd.ite(c, self.truth(a), self.truth(b))
            return terms.ite(c, a, b)
        o = self.ops(v)
        if v.ty == "i1" and op in ("and", "or", "xor"):
            x, y = self.truth(o[0]) if isinstance(o[0], Poly) else o[0], self.truth(o[1]) if isinstance(o[1], Poly) else o[1]
            return x & y if op == "and" else x | y if op == "or" else bdd.ite(x, ~y, y)
        if op in ("zext", "sext", "sitofp", "uitofp", "fpext", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            if not isinstance(o[0], Poly):
                if op == "freeze":
                    return o[0]
                t = self.num(o[0])
                return -t if op == "sext" else t
            return o[0]
        if op == "trunc":
            if v.ty == "i1":
                return self.truth(o[0]) if not isinstance(o[0], Poly) or o[0].const() is None else (bdd.T if o[0].const() % 2 else bdd.F)
            x = self.num(o[0])
            if v.ty == "i16" and x.const() is None:
                return atom(("mod", x, P(65536)))
            return halves(x)[0] if v.ty == "i32" else x
        if op == "fptrunc":
            if v.ops[0].ty == "x86_fp80":
                return o[0]
            return atom(("float32", o[0]))
        o = [self.num(x) if not isinstance(x, Poly) else x for x in o]
        if op == "gep":
            off, sc = v.x
            r = o[0] + P(off)
            for x, s in zip(o[1:], sc):
                r = r + x * P(s)
            return r
        if op in ("add", "fadd"):
            return o[0] + o[1]
        if op in ("sub", "fsub"):
            return o[0] - o[1]
        if op in ("mul", "fmul"):
            return o[0] * o[1]
        if op == "fdiv":
            return o[0] / o[1]
        if op == "fneg":
            return -o[0]
        if op == "shl":
            return o[0] * terms.power(P(2), o[1])
        if op in ("lshr", "ashr", "sdiv", "udiv"):
            k = o[1].const()
            if op in ("lshr", "ashr"):
                if k == 32 and op == "lshr":
                    hi = halves(o[0])[1]
                    if hi.t:
                        return hi
                d = terms.power(P(2), o[1])
            else:
                d = o[1]
            if v.x or (k == 1 and op.endswith("div")):
                return o[0] / d
            return intdiv(o[0], d, "udiv" if op in ("udiv", "lshr") and any(c < 0 for c in o[0].t.values()) else "idiv")
        if op in ("srem", "urem"):
            c0, c1 = o[0].const(), o[1].const()
            if c0 is not None and c1:
                return P(c0 % c1)
            return atom(("mod", o[0], o[1]))
        if op in ("and", "or", "xor"):
            return self._bits(op, v, o)
        if op in ("fptosi", "fptoui"):
            return trunc_term(o[0])
        if op == "icmp":
            return self._icmp(v, o)
        if op == "fcmp":
            p = v.x
            a, b = o
            if p in ("olt", "ult"):
                return bdd.gt0(b - a)
            if p in ("ogt", "ugt"):
                return bdd.gt0(a - b)
            if p in ("ole", "ule"):
                return ~bdd.gt0(a - b)
            if p in ("oge", "uge"):
                return ~bdd.gt0(b - a)
            if p in ("oeq", "ueq"):
                return bdd.eq0(a - b)
            if p in ("one", "une"):
                return ~bdd.eq0(a - b)
            if p == "true":
                return bdd.T
            if p == "false":
                return bdd.F
            return None
        if op == "extractvalue":
            a = v.ops[0]
            while isinstance(a, Inst) and a.op == "insertvalue":
                if a.x == v.x:
                    return self.at(a.ops[1], v.bb)
                a = a.ops[0]
            return atom(("xv", o[0], tuple(v.x)))
        if op == "insertvalue":
            fields = {}
            a = v
            while isinstance(a, Inst) and a.op == "insertvalue":
                fields.setdefault(tuple(a.x), self.at(a.ops[1], v.bb))
                a = a.ops[0]
            return atom(("agg", tuple(sorted((k, self.num(x)) for k, x in fields.items()))))
        if op == "atomicrmw":
            return atom(("rmw",) + self.tag + (self.sid, v.id))
        return None

    def as_bool(self, t):
        """BDD of a term that is known to be 0 or 1"""
        c = t.const()
        if c is not None:
            return bdd.T if c == 1 else bdd.F if c == 0 else None
        a = t.atom()
        if a and a[0] == "ite":
            x, y = self.as_bool(a[2]), self.as_bool(a[3])
            if x is not None and y is not None:
                return bdd.ite(a[1], x, y)
        return None

    def _bits(self, op, v, o):
        x, y = self.as_bool(o[0]), self.as_bool(o[1])
        if x is not None and y is not None:
            return self.num(x & y if op == "and" else x | y if op == "or" else bdd.ite(x, ~y, y))
        for x, y in ((o[0], o[1]), (o[1], o[0])):
            m = y.const()
            if m is not None and op == "and":
                m = int(m)
                if m == 0xffffffff:
                    return halves(x)[0]
                if m in (-(1 << 32), 0xffffffff00000000):
                    return halves(x)[1] * P(M32)
                if m == 1:
                    return atom(("mod", x, P(2)))
                if m > 0 and m & (m + 1) == 0:
                    return atom(("mod", x, P(m + 1)))
            if m is not None and op in ("or", "xor") and m == 0:
                return x
        if op == "or":
            # disjoint halves
            hi = [all(c.denominator == 1 and c % M32 == 0 for c in x.t.values()) and bool(x.t) for x in o]
            if hi[0] != hi[1]:
                h, l = (o[0], o[1]) if hi[0] else (o[1], o[0])
                PACKS[o[0] + o[1]] = (l, h * P(Fr(1, M32)))
                return o[0] + o[1]
        if op == "xor" and o[1].const() == -1:
            return -o[0] - P(1)
        s = sorted(o, key=terms.show)
        return atom((op, s[0], s[1]))

    def _icmp(self, v, o):
        p = v.x
        a, b = o
        w = v.ops[0].ty
        if p in ("eq", "ne"):
            r = None
            for x, y in ((a, b), (b, a)):
                t = x.atom()
                if t and t[0] == "ite" and y.const() is not None:
                    c1, c2 = t[2].const(), t[3].const()
                    if c1 is not None and c2 is not None:
                        k = y.const()
                        r = bdd.ite(t[1], bdd.T if c1 == k else bdd.F, bdd.T if c2 == k else bdd.F)
            if r is None:
                r = bdd.eq0(a - b)
            return r if p == "eq" else ~r
        if p[0] == "u":
            # unsigned comparison with a negative constant: take its unsigned value
            def un(x, val):
                c = x.const()
                if c is not None and c < 0 and w.startswith("i"):
                    return P(c + (1 << int(w[1:])))
                return x
            a, b = un(a, v.ops[0]), un(b, v.ops[1])
            if p == "ugt" and b.const() == 0:
                return ~bdd.eq0(a)
            if p == "ult" and a.const() == 0:
                return ~bdd.eq0(b)
            if p == "ule" and b.const() == 0 or p == "ult" and b.const() == 1:
                return bdd.eq0(a)
            if p == "uge" and b.const() == 1:
                return ~bdd.eq0(a)
        p = p[1:]
        if p == "lt":
            return bdd.igt0(b - a)
        if p == "gt":
            return bdd.igt0(a - b)
        if p == "le":
            return bdd.igt0(b - a + P(1))
        return bdd.igt0(a - b + P(1))

    def _phi(self, v):
        b = v.bb
        L = self.loopof.get(b)
        if L and L.h is b:
            ent = [(x, p) for x, p in zip(v.ops, v.x) if p not in L.body and p in self.rpon]
            lat = [(x, p) for x, p in zip(v.ops, v.x) if p in L.body]
            init = None
            for x, p in ent:
                t = self.at(x, p)
                if init is None:
                    init = t
                elif init != t:
                    init = self.merge(ent, L.parent, to=b)
                    break
            me = ("phi",) + self.tag + (self.sid, v.id)
            self._t[v] = ~bdd.eq0(atom(me)) if v.ty == "i1" else atom(me)
            self.recur[me] = (L, init, None, v)
            # value after one iteration in terms of itself
            self._busy.discard(v)
            nxt = None
            if len(lat) == 1:
                nxt = self.at(lat[0][0], lat[0][1])
            else:
                ts = [self.at(x, p) for x, p in lat]
                if all(t == ts[0] for t in ts):
                    nxt = ts[0]
                else:
                    nxt = self.merge(lat, L, to=b)
            self._busy.add(v)
            self.recur[me] = (L, init, nxt, v)
            if v.ty == "i1" or not isinstance(nxt, Poly) or not isinstance(init, Poly):
                return self._t[v]
            step = nxt - atom(me)
            if not step.t:
                return init
            if me not in terms.atoms_of(step) and self.invariant(step, L):
                # affine induction variable; every term computed from the placeholder is recomputed
                del self.recur[me]
                dep = [u for u, t in self._t.items() if u is not v and mentions(t, me)]
                for u in dep:
                    del self._t[u]
                self._rc.clear()
                for l in self.loops.values():
                    l.N = l.Nsrc = l.contlit = None
                return init + step * L.K
            return self._t[v]
        pairs = [(x, p) for x, p in zip(v.ops, v.x) if p in self.rpon]
        ts = [self.at(x, p) for x, p in pairs]
        if all(t == ts[0] for t in ts[1:]):
            return ts[0]
        return self.merge(pairs, L, b)

    def invariant(self, t, L):
        for a in terms.atoms_of(t):
            if a == L.K.atom():
                return False
            if a[0] == "k":
                # counter of an inner loop
                for l in self.loops.values():
                    if l.K.atom() == a and l.h in L.body and l is not L:
                        return False
            if a in self.recur and self.recur[a][0].h in L.body:
                return False
            if a[0] in ("val", "ld2", "draw", "rmw", "call", "cyc"):
                return False
        return True

    def merge(self, pairs, L, blk=None, to=None):
        """value of a join: nested if-then-else over the conditions of the incoming edges"""
        conds = []
        for x, p in pairs:
            lp = self.loopof.get(p)
            if lp is L:
                tgt = blk if blk is not None else to
                c = self.rc(p) & (self.edge_cond(p, tgt) if tgt is not None else bdd.T)
            else:
                q = lp
                while q is not None and q.parent is not L:
                    q = q.parent
                c = self.entry_cond(q, L) & self.exit_cond(q, blk if blk is not None else p) if q is not None else bdd.T
            conds.append(c)
        tot = bdd.F
        for c in conds:
            tot = tot | c
        vals = [self.at(x, p if blk is None else blk) if False else self.at(x, p) for x, p in pairs]
        if blk is not None:
            vals = [self.at(x, blk) for x, p in pairs]
        order = list(range(len(pairs)))
        isb = any(not isinstance(t, Poly) for t in vals)
        if isb:
            r = bdd.F
            for i in order:
                t = vals[i]
                t = self.truth(t) if isinstance(t, Poly) and t.const() is None else (bdd.T if isinstance(t, Poly) and t.const() else bdd.F if isinstance(t, Poly) else t)
                r = r | (conds[i] & t)
            return bdd.constrain(r, tot) if tot is not bdd.F else r
        # group equal values
        groups = {}
        for i in order:
            groups.setdefault(vals[i], []).append(i)
        items = []
        for t, idx in groups.items():
            c = bdd.F
            for i in idx:
                c = c | conds[i]
            items.append((t, c))
        items.sort(key=lambda x: terms.show(x[0]))
        r = items[-1][0]
        care = tot
        rest = items[-1][1]
        res = items[-1][0]
        for t, c in reversed(items[:-1]):
            both = c | rest
            cc = bdd.constrain(c, both) if both is not bdd.F else c
            res = ite_tree(cc, t, res)
            rest = both
        return res

    # ------------------------------------------------------------------ memory
    def _alloca_info(self):
        self.allocas = [i for i in self.fn.insts() if i.op == "alloca"]

    def stores(self):
        if self._stores is None:
            self._stores = {}
            for i in self.fn.insts():
                if i.op == "store" and i.bb in self.rpon:
                    self._stores.setdefault(rootval(i.ops[1]), []).append(i)
        return self._stores

    def addr(self, v, b):
        t = self.at(v, b)
        return t if isinstance(t, Poly) else self.num(t)

    def _load(self, v):
        a = self.addr(v.ops[0], v.bb)
        r = self._forward(v, a)
        if r is not None:
            return r
        if self.ldmap:
            t = self.ldmap(a)
            if t is not None:
                return t
        t = atom(("ld", a))
        return t

    def _forward(self, v, a):
        """value of the reaching store if there is exactly one (must-alias) reaching definition"""
        root = rootval(v.ops[0])
        cand = self.stores().get(root, [])
        if not cand:
            return None
        local = isinstance(root, Inst) and root.op == "alloca"
        sz = v.x["size"]
        rel = []
        for s in cand:
            d = self.addr(s.ops[1], s.bb) - a
            dc = d.const()
            if dc is None:
                rel.append((s, None))
            elif -s.x["size"] < dc < sz:
                rel.append((s, dc))
        if not rel:
            return None
        if any(d != 0 or s.x["size"] != sz for s, d in rel):
            if not all(d is None for s, d in rel) or local:
                return atom(("ldx",) + self.tag + (self.sid, v.id))
            # same array, different (symbolic) elements: the initial contents are meant by the caller
            return None
        ids = {id(s): s for s, _ in rel}
        # backward search for the reaching stores
        found = set()
        entry = [False]
        seen = set()

        def scan(b, upto):
            for i in reversed(b.insts[:upto]):
                if i.op == "store" and id(i) in ids:
                    found.add(i)
                    return
                if local and i.op == "call" and self.clobbers(i, root):
                    entry[0] = True
                    return
            ps = self.pred[b]
            if not ps:
                entry[0] = True
            for p in ps:
                if p not in seen:
                    seen.add(p)
                    scan(p, len(p.insts))
        scan(v.bb, v.idx)
        if not found:
            return None
        if len(found) == 1 and not entry[0]:
            s = next(iter(found))
            return self.at(s.ops[0], v.bb)
        if not entry[0] or local:
            return atom(("ldx",) + self.tag + (self.sid, v.id))
        return None

    RO = ("__kmpc_for_static_init", "__kmpc_for_static_fini", "llvm.lifetime", "llvm.dbg", "__kmpc_fork_call", "__kmpc_push_num_threads",
          "llvm.prefetch", "__kmpc_barrier", "__kmpc_single", "__kmpc_end_single", "__kmpc_dispatch", "__kmpc_reduce", "__kmpc_end_reduce",
          "llvm.assume", "llvm.experimental")

    def clobbers(self, i, root):
        n = i.x.v if i.x.kind == "fn" else ""
        if isinstance(n, str) and n.startswith(self.RO):
            if n.startswith("__kmpc_fork_call"):
                return self.fork_writes(i, root)
            return False
        return any(rootval(o) is root for o in i.ops)

    def fork_writes(self, i, root):
        g = i.ops[2]
        if not (isinstance(g, Const) and g.kind == "fn"):
            return True
        fn = self.fn.mod.fns.get(g.v)
        for k, o in enumerate(i.ops[3:]):
            if rootval(o) is root and fn is not None and 2 + k < len(fn.args):
                A = fn.args[2 + k]
                for j in fn.insts():
                    if j.op == "store" and rootval(j.ops[1]) is A:
                        return True
                    if j.op == "store" and rootval(j.ops[0]) is A:
                        return True
                    if j.op == "call" and any(rootval(x) is A for x in j.ops) and not str(j.x.v).startswith(self.RO):
                        return True
        return False

    # ------------------------------------------------------------------ calls
    MATH1 = {"exp": terms.exp, "log": terms.log, "cosh": lambda x: terms.even("cosh", x), "cos": lambda x: terms.even("cos", x),
             "sinh": lambda x: terms.odd("sinh", x), "sin": lambda x: terms.odd("sin", x), "fabs": terms.absolute,
             "llvm.fabs.f64": terms.absolute, "llvm.abs.i32": terms.absolute, "abs": terms.absolute, "llvm.abs.i64": terms.absolute,
             "labs": terms.absolute, "asinh": lambda x: terms.odd("asinh", x), "tanh": lambda x: terms.odd("sinh", x) / terms.even("cosh", x),
             "tan": lambda x: terms.odd("sin", x) / terms.even("cos", x),
             "sqrt": lambda x: terms.power(x, P(Fr(1, 2))), "llvm.sqrt.f64": lambda x: terms.power(x, P(Fr(1, 2))),
             "cbrt": lambda x: terms.power(x, P(Fr(1, 3))),
             "log2": lambda x: terms.log(x) / terms.log(P(2)), "log10": lambda x: terms.log(x) / terms.log(P(10)),
             "log1p": lambda x: terms.log(x + P(1)), "expm1": lambda x: terms.exp(x) - P(1),
             "exp2": lambda x: terms.power(P(2), x), "llvm.exp.f64": terms.exp, "llvm.log.f64": terms.log,
             "llvm.exp2.f64": lambda x: terms.power(P(2), x), "llvm.log2.f64": lambda x: terms.log(x) / terms.log(P(2)),
             "llvm.cos.f64": lambda x: terms.even("cos", x), "llvm.sin.f64": lambda x: terms.odd("sin", x)}
    MATHN = {"acosh", "acos", "asin", "atan", "floor", "ceil", "round", "llvm.floor.f64", "llvm.ceil.f64", "llvm.round.f64", "nextafter", "trunc",
             "llvm.trunc.f64", "fmod", "atan2", "atanh", "rint", "nearbyint", "lround", "tgamma"}
    MATH2 = {"pow": terms.power, "llvm.pow.f64": terms.power, "fmin": terms.minimum, "fmax": terms.maximum,
             "llvm.minnum.f64": terms.minimum, "llvm.maxnum.f64": terms.maximum, "hypot": lambda a, b: terms.power(a * a + b * b, P(Fr(1, 2)))}

    def callee(self, v):
        c = v.x
        return c.v if isinstance(c, Const) and c.kind == "fn" else None

    def _call(self, v):
        n = self.callee(v)
        if n is None:
            return None
        m = F32.match(n)
        if m and m.group(1) in self.MATH1:              # std::log2(float), ...: the result is rounded to single precision
            n = m.group(1) + "f"
        base = n[:-1] if n[-1:] in "fl" and n[:-1] in self.MATH1 else n.replace(".f32", ".f64") if n.endswith(".f32") else n
        if base in self.MATH1:
            r = self.MATH1[base](self.num(self.at(v.ops[0], v.bb)))
            return atom(("float32", r)) if base != n and n[-1] != "l" and r.const() is None else r
        if n in self.MATH2:
            return self.MATH2[n](*[self.num(self.at(x, v.bb)) for x in v.ops[:2]])
        if n == "ldexp":
            x, e = [self.num(self.at(x, v.bb)) for x in v.ops[:2]]
            return x * terms.power(P(2), e)
        if n in self.MATHN:
            t = [self.num(self.at(x, v.bb)) for x in v.ops]
            nm = n.split(".")[1] if n.startswith("llvm.") else n
            if nm == "acosh":
                return acosh_term(t[0])
            return atom((nm,) + tuple(t))
        if n.startswith(("llvm.smax", "llvm.umax")):
            return terms.maximum(*[self.at(x, v.bb) for x in v.ops])
        if n.startswith(("llvm.smin", "llvm.umin")):
            return terms.minimum(*[self.at(x, v.bb) for x in v.ops])
        if n.startswith("llvm.fmuladd") or n in ("fma", "llvm.fma.f64"):
            a, b, c = [self.at(x, v.bb) for x in v.ops]
            return a * b + c
        if n.startswith("llvm.ctlz") or n == "__builtin_clz":
            return atom(("ctlz", self.at(v.ops[0], v.bb)))
        if n.startswith("llvm.expect"):
            return self.at(v.ops[0], v.bb)
        if n == "omp_get_thread_num":
            return atom(("tid",))
        if n == "omp_get_num_threads":
            return atom(("team",))
        if n == "omp_get_max_threads":
            return atom(("maxthreads",))
        if n == "omp_get_num_procs":
            return atom(("numprocs",))
        return self.lib_call(v, n)

    def lib_call(self, v, n):
        """library routines; subclasses / checks may refine"""
        h = getattr(self, "lib", None)
        if h is not None:
            r = h(self, v, n)
            if r is not None:
                return r
        if v.ty == "void":
            return None
        q = qual(demangle(n))
        if q in PURE or n.startswith("vh_pure_") or any(q.endswith(x) for x in self.PUREX):
            return atom((q,) + tuple(self.num(self.at(x, v.bb)) for x in v.ops))
        return atom(("call",) + self.tag + (self.sid, v.id))

    PUREX = ()         # suffixes of kept repository functions without side effects

    def calls(self, pred=None):
        out = []
        for b in self.rpo:
            for i in b.insts:
                if i.op in ("call", "invoke"):
                    n = self.callee(i)
                    if n and n.startswith(("llvm.dbg", "llvm.lifetime")):
                        continue
                    c = Call()
                    c.inst, c.callee = i, n
                    c.q = qual(demangle(n)) if n else None
                    c.view = self
                    if pred is None or pred(c):
                        out.append(c)
        return out

    def where(self, i):
        return where(i)


PURE = {"std::accumulate", "std::min_element", "std::max_element", "std::vector::size", "std::abs"}


def where(i):
    """file:line of an instruction, innermost frame that lies in the repository"""
    for f, l in (i.loc or ()):
        if "/repo/" in f or "source/" in f:
            return "%s:%d" % (f.split("/repo/")[-1], l)
    f, l = (i.loc or [("?", 0)])[-1]
    return "%s:%d" % (f, l)


PACKS = {}          # value packed by the compiler from two 32-bit halves -> (low, high)


def halves(p):
    """(low, high) of a value packed as low + 2^32 * high"""
    if p in PACKS:
        return PACKS[p]
    lo, hi = {}, {}
    for m, c in p.t.items():
        if c.denominator == 1 and abs(c) >= M32 // 2 and all(not isinstance(e, Poly) and e > 0 for a, e in m):
            h = (c + M32 // 2) // M32
            if h:
                hi[m] = Fr(h)
            if c - h * M32:
                lo[m] = c - h * M32
        else:
            lo[m] = c
    return Poly(lo), Poly(hi)


def rootval(v):
    while True:
        if isinstance(v, Inst) and v.op in ("gep", "bitcast", "addrspacecast", "freeze"):
            v = v.ops[0]
        elif isinstance(v, Const) and v.kind == "expr" and v.v == "gep":
            v = v.x[0]
        else:
            return v


def mentions(t, a):
    if isinstance(t, Poly):
        return a in terms.atoms_of(t)
    return any(a in terms.atoms_of(("x", l)) for l in bdd.support(t)) if t not in (bdd.T, bdd.F) else False


def ite_tree(c, a, b):
    """if-then-else over a compound condition, expanded along the BDD so that min/max forms are recognised"""
    if c is bdd.T:
        return a
    if c is bdd.F:
        return b
    if bdd.single(c) is not None:
        return terms.ite(c, a, b)
    l = bdd._rev[c.v]
    hi, lo = ite_tree(c.hi, a, b), ite_tree(c.lo, a, b)
    return terms.ite(bdd.mk(c.v, bdd.F, bdd.T), hi, lo)


def split_lin(p, a):
    """p = c*a + r with c, r free of a; (None, None) if not linear"""
    c, r = ZERO, ZERO
    for m, k in p.t.items():
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None, None
            del d[a]
            c = c + Poly({frozenset(d.items()): k})
        else:
            r = r + Poly({m: k})
    if a in terms.atoms_of(c) or a in terms.atoms_of(r):
        return None, None
    return c, r


def ceil_div(p, k):
    return intdiv(p + P(k - 1), P(k))


def intdiv(a, d, kind="idiv"):
    """integer division (operands non-negative in all uses)"""
    dc = d.const()
    ac = a.const()
    if ac is not None and dc:
        return P(Fr(int(ac) // int(dc) if ac >= 0 else -(int(-ac) // int(dc))))
    if dc:
        q, r = {}, {}
        for m, c in a.t.items():
            if m and (c / dc).denominator == 1:
                q[m] = c / dc
            else:
                r[m] = c
        rest = Poly(r)
        rc = rest.const()
        if rc is not None and q and 0 <= rc < dc:
            return Poly(q)
        return atom((kind, a, d))
    if d.is_mono() and a.t:
        x = a / d
        if all(_poscoef(m) for m in x.t):
            return x
    return atom((kind, a, d))


def _poscoef(m):
    return False


def trunc_term(x):
    c = x.const()
    if c is not None:
        return P(Fr(int(c)))
    a = x.atom()
    if a and a[0] in ("floor", "ceil", "trunc", "round"):
        return x
    return atom(("trunc", x))


def acosh_term(x):
    # acosh(cosh(y)) = |y|
    a = x.atom()
    if a and a[0] == "cosh":
        return terms.absolute(a[1])
    return atom(("acosh", x))
