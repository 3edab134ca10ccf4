"""The radix sort (C28): digits, counters, chunks and buffers of its passes, for every key width."""
import os
import random
import re
import bdd
import fview
import heap
import ir
import policy
import rnd
import terms
import units
from heap import Data, Missing
from ir import AnalysisError
from rnd import Undef
from terms import P, Poly, atom
from probe import show

SIZE = 40
LIB = {"girgs": [], "hypergirgs": ["VH_HYPER"]}
R_ORDER = "the digits of the passes, most significant last, order the keys as the keys themselves"
R_RANGE = "every digit has its counter, its pointer and its block"
R_FLOW = "each pass reads what the pass before wrote, and the result says which buffer holds the sorted elements"
R_COUNT = "each pass distributes by the digit that was counted, over the same elements"
R_START = "the first element of a digit is stored after all elements of smaller digits and of earlier threads"
R_CHUNK = "the chunks of the threads tile the elements"
R_BLOCK = "the blocks sorted independently are those of the first pass"
R_SWAP = "the buffer becomes the result exactly if it holds the sorted elements"
RULES = (R_ORDER, R_RANGE, R_FLOW, R_COUNT, R_START, R_CHUNK, R_BLOCK, R_SWAP)


def pol(n, d):
    return policy.std_atomic(d) or "intsort::" in d and policy.qual(d).endswith(("IntSortImpl::sort", "IntSortImpl::IntSortImpl", "intsort::intsort", "::ilog2"))


BOUNDS = sorted({x for k in range(32) for x in (2 ** k, 2 ** (k + 1) - 1)} | {3, 5, 100, 257, 1000, 70000, 3 * 2 ** 20, 3 * 2 ** 30})


class Odd(Exception):
    pass


class Steps(heap.Interp):
    """only the first and the last iteration of loops without state"""

    def iterate(self, L, env):
        m = self.model(env)
        n = self.trips(L, m)
        if n is None or self.recs(L) or L in self.whole:
            yield from heap.Interp.iterate(self, L, env)
            return
        for k in sorted({0, n - 1} if n else ()):
            e = dict(env)
            e[L.K.atom()] = float(k)
            yield e


def c28(rep, tmp, conf, defs, lib):
    M = units.build(tmp, "is_" + lib, [os.path.join(units.HARN, "intsort.cpp")], list(defs) + LIB[lib], [], pol)
    rep.unit("%s/IntSort.h: intsort [%s]" % (lib, " ".join(defs) or "debug"))
    f = lambda s: next((x for x in M.fns.values() if not x.decl and policy.qual(x.dname).endswith(s) and ".omp_outlined" not in x.name), None)
    ctors = [x for x in M.fns.values() if not x.decl and policy.qual(x.dname).endswith("IntSortImpl::IntSortImpl")]
    fs, fl, fw = f("IntSortImpl::sort"), f("::ilog2"), f("intsort::intsort")
    if fs is None or fl is None or fw is None or not ctors:
        raise AnalysisError("parts of the radix sort not found")
    fc = max(ctors, key=lambda x: len(list(x.insts())))
    S = Sort(rep, conf, fs, fc, fl, lib)
    for rule, g in ((R_ORDER, S.order), (R_FLOW, S.flow), (R_COUNT, S.counted), (R_START, S.starts), (R_CHUNK, S.chunks), (R_BLOCK, S.blocks)):
        try:
            g()
        except (Odd, Missing, Undef, Data, AnalysisError, KeyError, IndexError, AttributeError, TypeError, ValueError, OverflowError) as e:
            rep.undecided(rule, S.where, "%s: %s" % (type(e).__name__, str(e)[:120]), conf)
    for fw in M.fns.values():
        if not fw.decl and policy.qual(fw.dname).endswith("intsort::intsort"):
            swapped(rep, conf, fw)


def swapped(rep, conf, fw):
    v = fview.FView(fw)
    w = fview.where(next(fw.insts()))
    call = [c for c in v.calls() if c.q and c.q.endswith("IntSortImpl::sort")]
    sw = [c for c in v.calls() if c.q and re.match(r"std::((vector|unique_ptr|shared_ptr|__shared_ptr)::(swap|operator=|reset)|swap|copy|move|swap_ranges)$|llvm\.mem(cpy|move)\.", c.q)]
    if len(call) != 1 or not sw:
        rep.undecided(R_SWAP, w, "%d sorts, %d exchanges" % (len(call), len(sw)), conf)
        return
    r = v.truth(v.at(call[0].inst, call[0].inst.bb))
    cs = [v.full(x.inst.bb) for x in sw]
    w = fview.where(sw[0].inst)
    if sw[0].q.startswith("llvm."):
        # a copy of the elements, in the cases std::copy distinguishes
        if all(c & ~r is bdd.F for c in cs):
            rep.ok(R_SWAP, w, "", conf)
        else:
            rep.undecided(R_SWAP, w, "copy under %s" % str(cs[0])[:80], conf)
        return
    c = cs[0]
    if len(cs) > 1:
        rep.undecided(R_SWAP, w, "%d exchanges" % len(cs), conf)
    elif c is r or c == r:
        rep.ok(R_SWAP, w, "", conf)
    elif c is bdd.T or c == ~r:
        rep.bad(R_SWAP, w, "the buffer is taken %s" % ("always" if c is bdd.T else "if it is not needed"), None, conf)
    else:
        rep.undecided(R_SWAP, w, "condition %s" % str(c)[:80], conf)


class Sort:
    def __init__(self, rep, conf, fs, fc, fl, lib):
        self.rep, self.conf, self.lib = rep, conf, lib
        self.v = v = fview.FView(fs)
        self.where = "source/%s/include/%s/IntSort.h" % (lib, lib)
        self.a = [v.term(x) for x in fs.args]
        cv = fview.FView(fc)
        this, self.maxkey = cv.term(fc.args[0]), None
        self.fields, self.width = {}, None
        for b in cv.rpo:
            for i in b.insts:
                if i.op == "store":
                    k = (cv.addr(i.ops[1], b) - this).const()
                    t = cv.at(i.ops[0], b)
                    if k is not None and isinstance(t, Poly):
                        self.fields[int(k)] = t
        al = {x for t in self.fields.values() for x in terms.atoms_of(t) if x[0] == "call"}
        if len(al) != 1:
            raise AnalysisError("key width not found")
        self.width = al.pop()
        c = next(i for i in fc.insts() if getattr(i, "id", None) == self.width[-1])
        self.bound = cv.at(c.ops[0], c.bb)
        if self.bound not in [cv.term(x) for x in fc.args]:
            raise AnalysisError("key width of %s" % show(self.bound))
        self.fl, self.widths = fl, {}
        self.order_ = {b: k for k, b in enumerate(v.rpo)}
        self.scan()

    # -------------------------------------------------------------------------------- what the sort does
    def scan(self):
        """copies of elements, counter increments, zero fills and prefix sums"""
        v = self.v
        self.copies, self.incs, self.fills, self.sums, self.moves = [], [], [], [], []
        for b in v.rpo:
            for i in b.insts:
                q = v.callee(i) or "" if i.op == "call" else ""
                if q.startswith("llvm.memcpy") or q.startswith("llvm.memmove"):
                    n = v.num(v.at(i.ops[2], b)).const()
                    (self.copies if n == SIZE else self.moves).append((b, i, v.addr(i.ops[0], b), v.addr(i.ops[1], b)))
                elif q.startswith("llvm.memset"):
                    if v.num(v.at(i.ops[1], b)) == P(0):
                        self.fills.append((b, i, v.addr(i.ops[0], b), v.num(v.at(i.ops[2], b))))
                elif q and "partial_sum" in ir.demangle(q):
                    self.sums.append((b, i) + tuple(v.addr(o, b) for o in i.ops[:3]))
                elif i.op == "store":
                    try:
                        a, t = v.addr(i.ops[1], b), v.at(i.ops[0], b)
                    except (AnalysisError, KeyError):
                        continue
                    if not isinstance(t, Poly):
                        continue
                    base, key = self.keyed(a)
                    if key is not None and len((t - P(1)).t) == 1 and (t - P(1)).atom() is not None and (t - P(1)).atom()[0] in ("ld", "ldx"):
                        self.incs.append((b, i, base, (a - base) / P(8), key))
                    elif v.num(t) == P(0):
                        self.fills.append((b, i, a, None))
        if len(self.copies) < 2:
            raise AnalysisError("%d passes found" % len(self.copies))
        self.passes = []
        for b, i, d, s in self.copies:
            pt = [x for x in self.incs if v.loopof.get(x[0]) is v.loopof.get(b)]
            # the pointer of the pass is the one the destination is computed from
            ptr = None
            for x in terms.atoms_of(d, deep=False):
                if x[0] in ("ldx", "ld"):
                    ad = self.addr_of(x)
                    for y in pt:
                        if ad is not None and ad == y[2] + P(8) * y[3]:
                            ptr = (x, y)
            if ptr is None:
                raise AnalysisError("destination %s" % show(d)[:80])
            x, y = ptr
            self.passes.append(dict(b=b, i=i, src=s, base=d - P(SIZE) * atom(x), ptr=y[2], digit=y[3], key=y[4], inc=y[1]))
        self.alien = None
        for c in v.calls():
            if c.q and c.q.startswith("llvm."):
                continue
            for o in c.inst.ops:
                try:
                    t = v.at(o, c.inst.bb)
                except (AnalysisError, KeyError, IndexError, TypeError):
                    continue
                if isinstance(t, Poly) and self.elements(t):
                    self.alien = "%s in %s" % (c.q, fview.where(c.inst))
        ps = {id(p["inc"]) for p in self.passes}
        self.counts = [x for x in self.incs if id(x[1]) not in ps]

    def addr_of(self, x):
        if x[0] == "ld":
            return x[1]
        i = next((i for i in self.v.fn.insts() if getattr(i, "id", None) == x[-1]), None)
        return self.v.addr(i.ops[0], i.bb) if i is not None and i.op == "load" else None

    def keyed(self, a):
        """(base, key atom) of an address base + 8*digit(key)"""
        ks = [x for x in terms.atoms_of(a) if x[0] == "ld" and any(y[0] == "k" for y in terms.atoms_of(x[1])) and self.element(x[1])]
        if len(ks) != 1:
            return None, None
        base = P(0)
        for m, c in a.t.items():
            if not any(ks[0] in terms.atoms_of(("x", x)) or ks[0] == x for x, e in m):
                base = base + Poly({m: c})
        return base, ks[0]

    def elements(self, t):
        return any(x == self.a[1].atom() or x == self.a[2].atom() for x in terms.atoms_of(t))

    def element(self, t):
        """address of an element of one of the two sequences"""
        at = terms.atoms_of(t)
        return any(x == self.a[1].atom() or x == self.a[2].atom() or x[0] in ("phi", "fin") for x in at)

    # -------------------------------------------------------------------------------- models
    def env(self, X):
        """members of the sorter for keys up to X, two elements, one thread"""
        sp = heap.Space()
        A = [sp.alloc(lambda o: 0.0, n) for n in ("begin", "buffer")]
        e = {self.a[1].atom(): A[0], self.a[2].atom(): A[1], self.a[3].atom(): 2.0, ("tid",): 0.0, ("team",): 1.0, ("maxthreads",): 1.0}
        m = heap.HModel(1, sp, {self.width: self.ilog(X), self.bound.atom(): float(X)})
        for off, t in self.fields.items():
            x = m.poly(t)
            e[("ld", self.a[0] + P(off))] = x
        return sp, e

    def data(self, m, x):
        """table entries: entry j holds j"""
        if x[0] in ("ldx", "ld"):
            ad = self.addr_of(x)
            if ad is not None:
                al = [y for y in terms.atoms_of(ad, deep=False) if y[0] == "alloca"]
                if len(al) == 1:
                    return float(m.poly(ad - atom(al[0])) // 8)
        if x[0] == "alloca":
            return 0.0
        return None

    def run(self, X):
        """passes, counts, fills and prefix sums in the order in which they happen for the first block"""
        v = self.v
        if self.alien:
            raise Odd("elements passed to %s" % self.alien)
        sp, env = self.env(X)
        mk = lambda e: Mod(1, sp, e, {}, self.data)
        it = Steps(v, mk)
        it.whole = ()
        ev = []
        env = dict(env)
        blk = self.block_loop()
        for kind, xs in (("pass", self.passes), ("count", self.counts), ("fill", self.fills), ("sum", self.sums)):
            for x in xs:
                b, i = (x["b"], x["i"]) if kind == "pass" else x[:2]
                e0 = dict(env)
                seen = set()
                for e, ds in self.points(it, b, e0, blk):
                    path = []
                    for L in v.loops_of(b):
                        path += [self.order_[L.h], 0 if L is not blk and self.inner(L) else e.get(L.K.atom(), 0)]
                    key = tuple(path)
                    if key in seen:
                        continue
                    seen.add(key)
                    ev.append((path + [self.order_[b], i.idx], kind, x, e, it.model(e)))
        ev.sort(key=lambda x: x[0])
        return ev

    def inner(self, L):
        return not any(x.parent is L for x in self.v.loops.values())

    def points(self, it, b, env, blk):
        if blk is not None and blk in self.v.loops_of(b):
            n = self.v.trip(blk)
            for x in terms.atoms_of(n):
                if x in env and x[0] == "ld" and n == atom(x):
                    env = dict(env)
                    env[x] = 1.0                      # one block
        return it.points(b, env)

    def block_loop(self):
        """the loop over the blocks of the first pass"""
        outer = {self.v.loops_of(p["b"])[0] for p in self.passes if len(self.v.loops_of(p["b"])) > 1}
        return outer.pop() if len(outer) == 1 else None

    # -------------------------------------------------------------------------------- obligations
    def ilog(self, X):
        """key width of the bound X, from the source"""
        if X not in self.widths:
            v = fview.FView(self.fl) if not self.widths else self.flv
            self.flv = v
            rets = [(i, b) for b in v.rpo for i in b.insts if i.op == "ret"]
            if len(rets) != 1:
                raise Odd("%d returns" % len(rets))
            it = heap.Interp(v, lambda e: heap.HModel(1, heap.Space(), e))
            self.widths[X] = it.model({v.term(self.fl.args[0]).atom(): float(X)}).poly(v.at(rets[0][0].ops[0], rets[0][1]))
        return float(self.widths[X])

    def keys(self, X, rng):
        B = X.bit_length()
        ps = {(k - 1, k) for j in range(B + 1) for k in (2 ** j, X + 1 - 2 ** j, 3 * 2 ** j) if 1 <= k <= X}
        for _ in range(40):
            k, j = rng.randrange(X + 1), rng.randrange(B)
            l = k ^ (1 << j)
            if k != l and l <= X:
                ps.add((min(k, l), max(k, l)))
        return sorted(ps)

    def digits(self, ev, key):
        """digits of one key in the order of the passes; the first pass is the most significant one"""
        out = []
        for _, kind, x, e, m in ev:
            if kind == "pass":
                out.append(self.digit(x["digit"], x["key"], e, m, key))
        return out

    def digit(self, t, katom, e, m, key):
        e = dict(e)
        e[katom] = float(key)
        z = Mod(1, m.space, e, {}, self.data)
        z.interp = m.interp
        return z.poly(t)

    def order(self):
        rng = random.Random(3)
        n = 0
        for X in BOUNDS:
            ev = self.run(X)
            ps = [x for x in ev if x[1] == "pass"]
            if not ps:
                g = {p["b"]: self.v.full(p["b"]) for p in self.passes}
                if not self.decided(g):
                    raise Odd("no pass for keys up to %d" % X)
                self.rep.bad(R_ORDER, fview.where(self.passes[0]["i"]), "keys up to %d, 2 elements: nothing is sorted" % X, None, self.conf)
                return
            w = fview.where(ps[-1][2]["i"])
            for a, b in self.keys(X, rng):
                da, db = self.digits(ev, a), self.digits(ev, b)
                x, y = [da[0]] + da[:0:-1], [db[0]] + db[:0:-1]
                n += 1
                if not x < y:
                    self.rep.bad(R_ORDER, w, "keys up to %d: keys %d and %d have digits %s and %s" % (X, a, b, [int(z) for z in x], [int(z) for z in y]), None, self.conf)
                    return
                for j, (p, d) in enumerate(zip(ps, db)):
                    cap = self.capacity(p[2]["ptr"])
                    if cap is not None and d >= cap:
                        self.rep.bad(R_RANGE, fview.where(p[2]["i"]), "keys up to %d: digit %d of key %d, %d pointers" % (X, d, b, cap), None, self.conf)
                        return
                blk = self.block_loop()
                if blk is not None and self.v.trip(blk) is not None:
                    sp, e = self.env(X)
                    nb = Mod(1, sp, e, {}, self.data).poly(self.v.trip(blk))
                    if len(ps) > 1 and db[0] >= nb:
                        self.rep.bad(R_RANGE, fview.where(blk.h.insts[0]), "keys up to %d: key %d is in block %d, %d blocks are sorted" % (X, b, db[0], nb), None, self.conf)
                        return
                # prefix sums reach the digit
                sums = [x for x in ev if x[1] == "sum"]
                for p, d in list(zip(ps, db))[1:]:
                    s = [x for x in sums if x[0] < p[0]]
                    if s:
                        _, _, (sb, si, f, l, o), e, m = s[-1]
                        cnt = m.poly((l - f) / P(8)) + m.poly((o - p[2]["ptr"]) / P(8))
                        if d >= cnt:
                            self.rep.bad(R_RANGE, fview.where(si), "keys up to %d: digit %d of key %d, pointers for %d digits" % (X, d, b, cnt), None, self.conf)
                            return
        self.rep.ok(R_ORDER, w, "%d pairs of keys of 1 to 32 bits" % n, self.conf)
        self.rep.ok(R_RANGE, w, "", self.conf)
        self.rep.count("pairs of keys", n)

    def decided(self, g):
        """every pass has a condition that is decided, and false, for two elements"""
        sp, e = self.env(8)
        try:
            return all(Mod(1, sp, e, {}, self.data).bdd(self.v.full(self.outermost(b).h)) is False for b in g)
        except (Missing, Undef, Data, KeyError, TypeError, ValueError):
            return False

    def outermost(self, b):
        return next(L for L in self.v.loops_of(b) if L.parent is None)

    def capacity(self, base):
        a = base.atom()
        if a is None or a[0] != "alloca":
            return None
        i = next((x for x in self.v.fn.insts() if x.op == "alloca" and self.v.term(x).atom() == a), None)
        m = re.search(r"\[(\d+) x i64\]", str(i.x) if i is not None else "")
        return int(m.group(1)) if m else None

    def flow(self):
        v = self.v
        rets = [(i, b) for b in v.rpo for i in b.insts if i.op == "ret"]
        if len(rets) != 1:
            raise Odd("%d returns" % len(rets))
        r = v.truth(v.at(rets[0][0].ops[0], rets[0][1]))
        w = None
        for X in BOUNDS:
            ev = [x for x in self.run(X) if x[1] == "pass"]
            at = None
            for j, (_, _, p, e, m) in enumerate(ev):
                s, d = int(m.poly(p["src"])) >> heap.SHIFT, int(m.poly(p["base"])) >> heap.SHIFT
                if at is None:
                    at = int(e[self.a[1].atom()]) >> heap.SHIFT
                w = fview.where(p["i"])
                if s != at:
                    self.rep.bad(R_FLOW, w, "keys up to %d: pass %d of %d reads the %s, the elements are in the other one" % (X, j + 1, len(ev), "sequence" if s == 1 else "buffer"), None, self.conf)
                    return
                if s == d:
                    self.rep.bad(R_FLOW, w, "keys up to %d: pass %d of %d writes the sequence it reads" % (X, j + 1, len(ev)), None, self.conf)
                    return
                at = d
            sp, e = self.env(X)
            got = Mod(1, sp, e, {}, self.data).bdd(r)
            if bool(got) != (at == 2):
                self.rep.bad(R_FLOW, fview.where(rets[0][0]), "keys up to %d: %d passes end in the %s, the result says %s" % (X, len(ev), "sequence" if at == 1 else "buffer", "buffer" if got else "sequence"), None, self.conf)
                return
        if w is None:
            raise Odd("no pass")
        self.rep.ok(R_FLOW, w, "%d bounds" % len(BOUNDS) + "", self.conf)

    def counted(self):
        rng = random.Random(4)
        n, w = 0, None
        for X in BOUNDS:
            ev = self.run(X)
            first = True
            last = None
            prev = None
            for pos, kind, x, e, m in ev:
                if kind != "pass":
                    continue
                w = fview.where(x["i"])
                if first:
                    cand = [y for y in ev if y[1] == "count" and y[0] < pos]
                    if len(cand) != 1:
                        raise Odd("%d counts before the first pass" % len(cand))
                else:
                    s = [y for y in ev if y[1] == "sum" and y[0] < pos and y[2][4] == x["ptr"] + P(8)]
                    if not s:
                        raise Odd("no prefix sum before a pass")
                    s = s[-1]
                    if prev is not None and s[0] < prev:
                        self.rep.bad(R_COUNT, w, "keys up to %d: the pointers of a pass are not computed anew" % X, None, self.conf)
                        return
                    cand = [y for y in ev if y[1] == "count" and y[2][2] == s[2][2] and y[0] < s[0] and (last is None or y[0] > last)]
                    fills = [y for y in ev if y[1] == "fill" and self.v.num(y[2][2]) is not None and self.within(y[2][2], s[2][2]) and y[0] < s[0] and (last is None or y[0] > last)]
                    if not cand:
                        self.rep.bad(R_COUNT, w, "keys up to %d: a pass uses counters that were not filled since the pass before" % X, None, self.conf)
                        return
                    if len(cand) > 1:
                        raise Odd("%d counts before a pass" % len(cand))
                    top = max(self.digit(x["digit"], x["key"], e, m, k) for k in [X] + [2 ** z for z in range(X.bit_length())] + [2 ** z - 1 for z in range(X.bit_length())])
                    fills = [(y, self.extent(y, s[2][2])) for y in fills if y[0] < cand[0][0]]
                    if any(z is None for y, z in fills):
                        raise Odd("range of a reset")
                    part = [z for y, z in fills]
                    fills = [y for y, (lo, hi) in fills if lo <= 0 and hi >= top]
                    if part and not fills:
                        self.rep.bad(R_COUNT, fview.where(cand[0][2][1]), "keys up to %d: counters %s are reset before counting digits up to %d" % (X, ", ".join("%d to %d" % z for z in part), top), None, self.conf)
                        return
                    if not fills and self.foreign(s[2][2]):
                        raise Odd("counters written by %s" % self.foreign(s[2][2]))
                    if not fills:
                        self.rep.bad(R_COUNT, fview.where(cand[0][2][1]), "keys up to %d: the counters are not reset before counting" % X, None, self.conf)
                        return
                    last = s[0]
                c = cand[0]
                cb, ci, base, dig, katom = c[2]
                for k in [0, 1, X, (X + 1) // 2] + [rng.randrange(X + 1) for _ in range(12)]:
                    a, b = self.digit(dig, katom, c[3], c[4], k), self.digit(x["digit"], x["key"], e, m, k)
                    n += 1
                    if a != b:
                        self.rep.bad(R_COUNT, fview.where(ci), "keys up to %d: key %d is counted under digit %d and stored under digit %d" % (X, k, a, b), None, self.conf)
                        return
                self.same_elements(c, x, e, m)
                first = False
                prev = pos
        if w is None:
            raise Odd("no pass")
        self.rep.ok(R_COUNT, w, "%d bounds" % len(BOUNDS) + ", %d keys" % n, self.conf)

    def foreign(self, base):
        """writes to counters that are neither increments nor resets"""
        v = self.v
        known = {id(x[1]) for x in self.incs + self.fills}
        for b in v.rpo:
            for i in b.insts:
                if id(i) in known or i.op not in ("store", "call"):
                    continue
                q = v.callee(i) or "" if i.op == "call" else ""
                if q.startswith(("llvm.lifetime", "llvm.dbg")):
                    continue
                xs = [i.ops[1]] if i.op == "store" else list(i.ops)
                for o in xs:
                    try:
                        a = v.addr(o, b)
                    except (AnalysisError, KeyError, IndexError, TypeError):
                        continue
                    if isinstance(a, Poly) and set(terms.atoms_of(a, deep=False)) & {z for z in terms.atoms_of(base, deep=False) if z[0] == "alloca"} and "partial_sum" not in q:
                        return "%s in %s" % (i.op, fview.where(i))
        return None

    def extent(self, y, base):
        """first and last counter a reset covers"""
        b, i, a, n = y[2]
        m = y[4]
        if n is not None:
            lo = m.poly(a - base)
            return int(lo // 8), int((lo + m.poly(n)) // 8) - 1
        L = self.v.loopof.get(b)
        if L is None or L.K.atom() not in set(terms.atoms_of(a)):
            k = m.poly(a - base) // 8
            return int(k), int(k)
        t = self.v.trip(L)
        if t is None:
            return None
        t = int(m.poly(t))
        at = lambda k: int(m.poly(terms.subst(a - base, lambda z: P(k) if z == L.K.atom() else None)) // 8)
        if t < 1:
            return 0, -1
        if t > 1 and at(1) - at(0) not in (1, -1):
            return None
        return min(at(0), at(t - 1)), max(at(0), at(t - 1))

    def within(self, a, base):
        d = a - base
        return not any(x[0] == "alloca" for x in terms.atoms_of(d, deep=False))

    def same_elements(self, c, p, e, m):
        """count and pass run over ranges of the same length"""
        Lc, Lp = self.v.loopof.get(c[2][0]), self.v.loopof.get(p["b"])
        tc, tp = self.v.trip(Lc), self.v.trip(Lp)
        if tc is None or tp is None:
            raise Odd("range of elements")
        if not (tc == tp or rnd.same(tc, tp, None, 30)):
            self.rep.bad(R_COUNT, fview.where(c[2][1]), "%s elements are counted, %s are stored" % (show(tc)[:80], show(tp)[:80]), None, self.conf)
            raise Stop()

    def chunks(self):
        v = self.v
        p = next(x for x in self.passes if len(v.loops_of(x["b"])) == 1)
        L = v.loopof[p["b"]]
        trip = v.trip(L)
        if trip is None:
            raise Odd("range of a chunk")
        K = L.K.atom()
        start = (terms.subst(p["src"], lambda a: P(0) if a == K else None) - self.a[1]) / P(SIZE)
        w = fview.where(p["i"])
        cnt = next((x for x in self.counts if len(v.loops_of(x[0])) == 1), None)
        if cnt is not None:
            LK = v.loopof[cnt[0]].K.atom()
            # position of the elements counted
            cs = None
            for x in terms.atoms_of(cnt[3]):
                if x == cnt[4]:
                    cs = (terms.subst(x[1], lambda a: P(0) if a == LK else None) - self.a[1]) / P(SIZE)
            if cs is not None and not (cs == start or rnd.same(cs, start, None, 30)):
                self.rep.bad(R_COUNT, fview.where(cnt[1]), "elements from %s on are counted, from %s on stored" % (show(cs)[:60], show(start)[:60]), None, self.conf)
                return
        size = None
        for c in v.calls():
            if c.q and re.search(r"::vector$", c.q) and "array" in ir.demangle(c.callee) and len(c.inst.ops) > 2:
                size = v.num(v.at(c.inst.ops[1], c.inst.bb))
        if size is None:
            raise Odd("number of threads")
        n = 0
        U = 131072
        for N in [2, 3, 5, 7, 100, 1000, U - 1, U, U + 1, 2 * U, 2 * U + 1, 3 * U + 5, 10 * U + 1, 63 * U + 62]:
            for av in (1, 2, 3, 4, 7, 8, 64):
                mk = lambda t, T: heap.HModel(1, heap.Space(), {self.a[3].atom(): float(N), ("tid",): float(t), ("team",): float(T), ("maxthreads",): float(av)})
                top = int(mk(0, 1).poly(size))
                for T in range(1, top + 1):
                    pos = 0
                    for t in range(T):
                        m = mk(t, T)
                        s, k = m.poly(start), m.poly(trip)
                        n += 1
                        if s != pos or k < 0:
                            self.rep.bad(R_CHUNK, w, "%d elements, %d threads: thread %d takes %d elements from %d on, required from %d" % (N, T, t, k, s, pos), None, self.conf)
                            return
                        pos = s + k
                    if pos != N:
                        self.rep.bad(R_CHUNK, w, "%d elements, %d threads: the chunks end at %d" % (N, T, pos), None, self.conf)
                        return
        self.rep.ok(R_CHUNK, w, "%d chunks" % n, self.conf)

    def starts(self):
        """recurrences of the pointers of the first pass"""
        v = self.v
        p = next(x for x in self.passes if len(v.loops_of(x["b"])) == 1)
        cnt = next(x for x in self.counts if len(v.loops_of(x[0])) == 1)
        st = []
        for b in v.rpo:
            for i in b.insts:
                if i.op == "store" and len(v.loops_of(b)) == 1 and b is not p["b"]:
                    a = v.addr(i.ops[1], b)
                    if self.within(a, p["ptr"]) and isinstance(v.at(i.ops[0], b), Poly):
                        st.append((b, i, a - p["ptr"], v.at(i.ops[0], b)))
        if len(st) != 1:
            raise Odd("%d stores of first positions" % len(st))
        b, i, off, t = st[0]
        w = fview.where(i)
        outer = v.loops_of(b)[0]
        inner = [L for L in v.loops.values() if L.parent is outer]
        if len(inner) != 1 or off != P(8) * outer.K:
            raise Odd("slot %s" % show(off))
        inner = inner[0]
        x = t.atom()
        if x is None or x[0] != "fin" or x[1] not in v.recur or v.recur[x[1]][0] is not inner:
            raise Odd("value %s" % show(t)[:80])
        mine = x[1]
        # counters[thread][digit] with thread and digit as the loops count them
        cell = terms.subst(cnt[2], lambda a: inner.K if a == ("tid",) else None) + P(8) * outer.K
        # evaluate both loops on a table of counters
        T, Q = 3, 4
        table = {(h, q): float(random.Random(q * 7 + h).randrange(1, 9)) for h in range(T) for q in range(256)}
        NT = v.trip(inner)
        if NT is None or v.trip(outer) is None:
            raise Odd("bounds of the prefix sum")
        run = [a for a, r in v.recur.items() if r[0] is inner and a != mine]
        for team in (1, 2, 3):
            for tid in range(team):
                base = {("team",): float(team), ("tid",): float(tid)}
                res = self.simulate(outer, inner, cell, table, base, team, mine, Q)
                exp = [sum(table[h, q] for q in range(d) for h in range(team)) + sum(table[h, d] for h in range(tid)) for d in range(Q)]
                if res != exp:
                    self.rep.bad(R_START, w, "thread %d of %d, counters %s: first positions %s, required %s" % (tid, team, [[int(table[h, q]) for q in range(Q)] for h in range(team)], [int(z) for z in res], [int(z) for z in exp]), None, self.conf)
                    return
        tr = v.trip(outer).const()
        if tr is None:
            raise Odd("number of digits")
        cap = self.capacity(p["ptr"])
        if cap is not None and tr < cap:
            self.rep.bad(R_START, w, "first positions of %d digits, there are %d" % (tr, cap), None, self.conf)
            return
        self.rep.ok(R_START, w, "recurrence over digits and threads", self.conf)
        for sb, si, f, l, o in self.sums:
            q = next((x for x in self.passes if o == x["ptr"] + P(8)), None)
            zero = [1 for zb, zi, za, zn in self.fills if q is not None and za == q["ptr"]]
            if q is None or not zero:
                self.rep.undecided(R_START, fview.where(si), "prefix sum into %s" % show(o), self.conf)
            else:
                self.rep.ok(R_START, fview.where(si), "prefix sum", self.conf)

    def simulate(self, outer, inner, cell, table, base, team, mine, Q):
        """values of the recurrence of both loops"""
        v = self.v
        ko, ki = outer.K.atom(), inner.K.atom()
        want = {("ld", cell): None}
        ro = {a: r for a, r in v.recur.items() if r[0] is outer}
        ri = {a: r for a, r in v.recur.items() if r[0] is inner}

        def value(t, env, q, h, deep=0):
            def f(a):
                if a in env:
                    return P(int(env[a]))
                if a[0] == "cyc" and deep < 20:
                    y = by.get(a[-1])
                    if y is not None and y in env:
                        return P(int(env[y]))
                    i = ids.get(a[-1])
                    if i is not None and i.op != "phi":
                        return P(int(value(v.at(i, i.bb), env, q, h, deep + 1)))
                if a[0] == "ld" and a[1] == cell:
                    return P(int(table[h, q]))
                return None
            r = self.fold(t, f)
            if r is None:
                raise Odd("recurrence %s" % show(t)[:80])
            return r
        by = {}
        ids = {getattr(i, "id", None): i for i in v.fn.insts()}
        for a in list(ro) + list(ri):
            by[a[-1]] = a
        env = dict(base)
        for a, r in ro.items():
            env[a] = value(r[1], env, 0, 0)
        out = []
        for q in range(Q):
            env[ko] = float(q)
            for a, r in ri.items():
                env[a] = value(r[1], env, q, 0)
            for h in range(team):
                env[ki] = float(h)
                nx = {a: value(r[2], env, q, h) for a, r in ri.items()}
                env.update(nx)
            out.append(env[mine])
            fin = {}
            for a, r in ro.items():
                t = r[2]
                x = t.atom()
                if x is not None and x[0] == "cyc" and by.get(x[-1]) in ri:
                    fin[a] = env[by[x[-1]]]
                elif x is not None and x[0] == "fin" and x[1] in ri:
                    fin[a] = env[x[1]]
                else:
                    raise Odd("recurrence %s" % show(t)[:80])
            env.update(fin)
        return out

    def fold(self, t, f):
        m = heap.HModel(1, heap.Space(), {}, {}, None)
        old = m.resolve

        def res(a, u, mm):
            x = f(a)
            if x is not None:
                return float(x.const())
            return old(a, u, mm)
        z = rnd.Model(1, res, exact=True)
        try:
            return z.poly(t) if isinstance(t, Poly) else None
        except (Missing, Undef):
            return None

    def blocks(self):
        v = self.v
        blk = self.block_loop()
        if blk is None:
            raise Odd("loop over the blocks")
        p0 = next(x for x in self.passes if len(v.loops_of(x["b"])) == 1)
        mv = [x for x in self.moves if x[3] == p0["ptr"]]
        if len(mv) != 1:
            raise Odd("%d copies of the first positions" % len(mv))
        b, i, dst, src = mv[0]
        n = v.num(v.at(i.ops[2], b)).const()
        w = fview.where(i)
        g = v.full(b)
        for tid in (0, 1):
            m = heap.HModel(1, heap.Space(), {("tid",): float(tid), ("team",): 2.0, self.a[3].atom(): 9.0, ("ld", self.a[0] + P(4)): 9.0}, {}, None)
            if m.bdd(g) != (tid == 0):
                self.rep.bad(R_BLOCK, w, "thread %d of 2 %s the borders of the blocks" % (tid, "stores" if m.bdd(g) else "does not store"), None, self.conf)
                return
        cap = self.capacity(dst)
        end = [(v.at(j.ops[0], bb), j) for bb in v.rpo for j in bb.insts if j.op == "store" and v.addr(j.ops[1], bb) == dst + P(n)]
        if len(end) != 1:
            raise Odd("end of the last block")
        if end[0][0] != self.a[3]:
            self.rep.bad(R_BLOCK, fview.where(end[0][1]), "the last block ends at %s" % show(end[0][0]), None, self.conf)
            return
        # ranges of the passes inside of a block
        for q in self.passes:
            if q is p0:
                continue
            L = v.loopof[q["b"]]
            t = v.trip(L)
            at = {}
            for x in terms.atoms_of(t):
                if x[0] in ("ld", "ldx"):
                    at[x] = self.addr_of(x)
            lo, hi = dst + P(8) * blk.K, dst + P(8) * blk.K + P(8)
            xs = [x for x, ad in at.items() if ad == lo], [x for x, ad in at.items() if ad == hi]
            if len(xs[0]) != 1 or len(xs[1]) != 1:
                raise Odd("range of a block: %s" % show(t)[:80])
            if t != atom(xs[1][0]) - atom(xs[0][0]):
                self.rep.bad(R_BLOCK, fview.where(q["i"]), "a pass takes %s elements of a block" % show(t), None, self.conf)
                return
        self.rep.ok(R_BLOCK, w, "borders of the blocks", self.conf)


class Mod(heap.HModel):
    pass


class Stop(Odd):
    pass
