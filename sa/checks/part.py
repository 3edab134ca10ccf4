"""C23: every vertex is filed in the cell it lies in, and the table of first positions is right.

The constructor / buildPartition is summarised as terms: what is stored per vertex (layer, cell, copied data), the prefix sums
over layers, the marks of the first vertices of non-empty cells, and the parallel repair of empty cells.
"""
import math
import re
import bdd
import fview
import ir
import layout
import policy
import rnd
import strs
import terms
import units
from ir import AnalysisError, Inst
from terms import P, Poly, atom
from probe import Probe, judge_eq, opaque_atoms, show
from checks.pairs import pushed

class Part:
    """view of the function that files the vertices, with the data structures named"""

    def __init__(self, rep, v, conf):
        self.rep, self.v, self.conf = rep, v, conf
        self.alias = {}
        self.tables()

    # ---------------------------------------------------------------------------------- local vectors
    def tables(self):
        """moves between vectors: destination -> source"""
        v = self.v
        self.vec_ctor, self.vec_asg = [], []
        for c in v.calls():
            q = c.q or ""
            if not q.endswith(("vector::vector", "vector::operator=")):
                continue
            try:
                ts = [v.num(v.at(o, c.inst.bb)) if o.ty != "i1" else None for o in c.inst.ops]
            except (AnalysisError, KeyError, AttributeError):
                continue
            if len(ts) == 2 and all(t is not None and t.atom() is not None or t is not None and self.ptr(t) for t in ts) and c.inst.ops[1].ty == "ptr" and self.isvec(ts[1]):
                self.alias[ts[0]] = ts[1]
            elif q.endswith("vector::vector") and len(ts) >= 2 and c.inst.ops[1].ty != "ptr":
                self.vec_ctor.append((ts[0], ts[1], c))

    def ptr(self, t):
        return any(a[0] in ("arg", "alloca") for a in terms.atoms_of(t))

    def isvec(self, t):
        """is this pointer the object of a vector constructor seen so far?"""
        return any(t == d for d, _, _ in self.vec_ctor) or t in self.alias

    def root(self, t):
        n = 0
        while t in self.alias and n < 8:
            t, n = self.alias[t], n + 1
        return t

    def canon(self, t):
        """loads of the begin pointer of a moved vector -> loads of the vector it was moved from"""
        if not isinstance(t, Poly):
            return t

        def f(a):
            if a[0] == "ld":
                p = a[1]
                for d in self.alias:
                    k = (p - d).const()
                    if k is not None and 0 <= k < 24:
                        return atom(("ld", self.root(d) + P(int(k))))
            return None
        return terms.subst(t, f)

    def begin(self, vec):
        return atom(("ld", self.root(vec)))

    def num(self, o, b):
        return self.canon(self.v.addr(o, b))

    # ---------------------------------------------------------------------------------- stores
    def stores(self):
        for b in self.v.rpo:
            for i in b.insts:
                if i.op == "store":
                    try:
                        yield b, i, self.canon(self.v.addr(i.ops[1], b)), self.canon(self.v.at(i.ops[0], b))
                    except (AnalysisError, KeyError):
                        pass

    def copies(self):
        """memory copies: (block, inst, destination, source, size)"""
        for c in self.v.calls():
            if (c.callee or "").startswith(("llvm.memcpy", "llvm.memmove")):
                b = c.inst.bb
                try:
                    yield b, c.inst, self.num(c.inst.ops[0], b), self.num(c.inst.ops[1], b), self.v.num(self.v.at(c.inst.ops[2], b)).const()
                except (AnalysisError, KeyError):
                    pass

    def lin(self, t, base, size):
        """t = base + size * index + offset -> (index term, offset)"""
        r = t - base
        off, idx = 0, []
        for m, c in r.t.items():
            if not m:
                off = c
            else:
                idx.append((m, c))
        ix = Poly({m: c / size for m, c in idx})
        o = int(off) % size if off == int(off) else None
        if o is None:
            return None
        return ix + P((int(off) - o) // size), o

    def once(self, b, idx, n):
        """None: not understood; else (covers exactly 0 <= index < n, text); the block runs for each value of idx"""
        v = self.v
        ls = v.loops_of(b)
        if len(ls) != 1:
            return None
        L = ls[0]
        t = v.trip(L)
        K = L.K.atom()
        if t is None or not any(K == a for a in terms.atoms_of(idx)):
            return None
        a, r = fview.split_lin(idx, K)
        if a is None or a.const() not in (1, -1):
            return None
        lo = r if a.const() == 1 else r - t + P(1)
        return L, self.canon(lo), self.canon(t)


def based(a, base):
    """address relative to this pointer"""
    return any(c == 1 and [x for x, e in m] == [base.atom()] and all(e == 1 for x, e in m) for m, c in a.t.items())


def count_dom(names, hi=40):
    def dom(a, u, m):
        return float(int(1 + u * hi)) if u is not None and a in names else None
    return dom


def fields(pt, rule, NB, size, n, want, conf, dom, allowed=()):
    """final contents of every record of the vertex array. want: {offset: (text, f(index term) -> term or None)}"""
    rep, v = pt.rep, pt.v
    got = {}
    for b, i, a, val in pt.stores():
        if not based(a, NB):
            continue
        r = pt.lin(a, NB, size)
        if r is None or not v.loops_of(b):
            continue
        got.setdefault(r[1], []).append((b, i, r[0], val))
    for b, i, a, s, k in pt.copies():
        if not based(a, NB) or k is None:
            continue
        r = pt.lin(a, NB, size)
        if r is None:
            continue
        for o in range(0, int(k), 8):
            got.setdefault(r[1] + o, []).append((b, i, r[0], atom(("ld", s + P(o)))))
    loops = set()
    for off, (text, f) in sorted(want.items()):
        ss = got.get(off)
        if not ss:
            rep.undecided(rule, v.fn.dname[:60], "no store of the %s of a vertex found" % text, conf)
            continue
        last = ss[-1]
        if any(not v.dominates(x[0], last[0]) for x in ss[:-1]):
            rep.undecided(rule, v.where(last[1]), "several stores of the " + text, conf)
            continue
        b, i, idx, val = last
        c = pt.once(b, idx, n)
        if c is None or v.full(b) is not bdd.T and not plain(v, b):
            rep.undecided(rule, v.where(i), "iteration over the vertices not understood (%s)" % text, conf)
            continue
        L, lo, t = c
        if L not in loops:
            loops.add(L)
            cd = count_dom([])
            judge_eq(rep, rule, v.where(i), lo, P(0), None, conf, what="first vertex")
            judge_eq(rep, rule, v.where(i), t, n, sized(n), conf, what="number of vertices")
        w = f(idx, val)
        if w is None:
            rep.undecided(rule, v.where(i), text + " not understood", conf)
            continue
        judge_eq(rep, rule, v.where(i), pt.canon(val) if isinstance(val, Poly) else val, w, dom, conf, trials=200, what=text, allowed=allowed)


def copied(pt, rule, NB, size, want, conf):
    """copied data: every writer of a field copies the right value, possibly through a local object"""
    rep, v = pt.rep, pt.v
    wr, tmp = [], []
    for b, i, a, val in pt.stores():
        if isinstance(val, Poly):
            (wr if based(a, NB) else tmp).append((b, i, a, val, 8))
    for b, i, a, s, k in pt.copies():
        if k is not None:
            for o in range(0, int(k), 8):
                (wr if based(a, NB) else tmp).append((b, i, a + P(o), atom(("ld", s + P(o))), 8))

    def source(val, b, n=0):
        """follow a value through local objects: list of possible sources"""
        a = val.atom()
        if a is not None and a[0] == "ld" and n < 4:
            loc = [x for x in terms.atoms_of(a[1]) if x[0] == "alloca"]
            if len(loc) == 1 and a[1] - atom(loc[0]) == P((a[1] - atom(loc[0])).const() or 0):
                w = [x for x in tmp if x[2] == a[1] and v.loops_of(x[0]) == v.loops_of(b)]
                if not w:
                    return [val]
                return [y for x in w for y in source(x[3], x[0], n + 1)]
        return [val]
    for off, (text, f) in sorted(want.items()):
        hit = False
        for b, i, a, val, _ in wr:
            r = pt.lin(a, NB, size)
            if r is None or r[1] != off or not v.loops_of(b):
                continue
            for x in source(val, b):
                hit = True
                if any(y[0] == "alloca" for y in terms.atoms_of(x)):
                    rep.undecided(rule, v.where(i), "%s: %s" % (text, show(x)[:80]), conf)
                else:
                    judge_eq(rep, rule, v.where(i), x, f(r[0], x), None, conf, what=text)
        if not hit:
            rep.undecided(rule, v.fn.dname[:60], "no store of the %s of a vertex found" % text, conf)


def plain(v, b):
    """the block runs in every iteration of its loops"""
    for L, c in v.guards(b):
        if c is bdd.T:
            continue
        if L is not None and v.trip(L) is not None and L.contlit and bdd.restrict(c, {L.contlit[0]: L.contlit[1]}) is bdd.T:
            continue
        return False
    return True


def sized(n):
    """vector sizes are integers: begin and end pointers"""
    def dom(a, u, m):
        if u is not None and a[0] == "ld":
            return 800.0 * int(1 + 50 * u)
        return None
    return dom


def prefix(pt, rule, count, cells, up, conf, dom, total=True):
    """the table of first cells per layer: a prefix sum. cells(layer term) -> number of cells of that layer.
    Returns the vector that holds it."""
    rep, v = pt.rep, pt.v
    for b, i, a, val in pt.stores():
        if not isinstance(val, Poly) or val.atom() is None:
            continue
        r = v.recur.get(val.atom())
        ls = v.loops_of(b)
        if r is None or len(ls) != 1 or r[0] is not ls[0]:
            continue
        base = [x for x in terms.atoms_of(a) if x[0] == "ld" and x[1].atom() is not None and x[1].atom()[0] == "alloca"]
        if len(base) != 1:
            continue
        B = atom(base[0])
        ix = pt.lin(a, B, 4)
        if ix is None or ix[1] != 0:
            continue
        c = pt.once(b, ix[0], count)
        if c is None or not plain(v, b):
            continue
        L, lo, t = c
        init, nxt = pt.canon(r[1]), pt.canon(r[2]) if isinstance(r[2], Poly) else None
        if nxt is None:
            continue
        w = v.where(i)
        judge_eq(rep, rule, w, lo, P(0), dom, conf, what="first layer of the table")
        judge_eq(rep, rule, w, t, count, dom, conf, what="number of layers of the table")
        judge_eq(rep, rule, w, init, P(0), dom, conf, what="first entry")
        judge_eq(rep, rule, w, nxt - val, cells(ix[0]), dom, conf, trials=200, what="cells per layer")
        return base[0][1], L, val, b
    rep.undecided(rule, v.fn.dname[:60], "prefix sum over the layers not found", conf)
    return None


def marks(pt, NB, size, offc, IB, MAX, n, conf):
    """first positions of the non-empty cells"""
    rep, v = pt.rep, pt.v
    rule = "the first vertex of every non-empty cell is marked, the end of the table is the number of vertices"
    cell = lambda k: atom(("ld", NB + P(size) * k + P(offc)))
    end = first = loop = wrong = None
    dom = sized(n)
    for b, i, a, val in pt.stores():
        if not based(a, IB) or not isinstance(val, Poly):
            continue
        ls = v.loops_of(b)
        slot = (a - IB) / P(4)
        if not ls:
            sa = slot.atom()
            if sa is not None and sa[0] == "ld" and sa[1] - NB == P(offc):
                first = (i, val)
            elif rnd.same(slot, MAX, None, 30):
                end = (i, val)
            elif slot.const() is not None and val == P(0):
                wrong = (v.where(i), "the position of the first vertex is stored at slot %s, required its cell" % show(slot))
            elif rnd.same(val, n, dom, 30):
                rep.bad(rule, v.where(i), "the number of vertices is stored at slot %s, required %s" % (show(slot), show(MAX)), None, conf)
                return
            continue
        sa = slot.atom()
        if len(ls) == 1 and sa is not None and sa[0] == "ld":
            r = pt.lin(sa[1], NB, size)
            if r is None:
                continue
            loop = (b, i, r, val, ls[0])
    if end is not None and first is None and loop is not None and wrong:
        rep.bad(rule, wrong[0], wrong[1], None, conf)
        return
    if end is None or first is None or loop is None:
        rep.undecided(rule, v.fn.dname[:60], "stores of first positions not found", conf)
        return
    judge_eq(rep, rule, v.where(end[0]), end[1], n, dom, conf, what="end of the last cell")
    judge_eq(rep, rule, v.where(first[0]), first[1], P(0), dom, conf, what="first vertex")
    b, i, (k, off), val, L = loop
    w = v.where(i)
    if off != offc:
        rep.undecided(rule, w, "slot is not the cell of a vertex", conf)
        return
    c = pt.once(b, k, n)
    if c is None:
        rep.undecided(rule, w, "iteration not understood", conf)
        return
    judge_eq(rep, rule, w, val, k, dom, conf, what="position of the first vertex of a cell")
    judge_eq(rep, rule, w, c[1], P(1), dom, conf, what="second vertex")
    judge_eq(rep, rule, w, c[2], n - P(1), dom, conf, what="number of neighbouring pairs of vertices")
    g = bdd.T
    for LL, cc in v.guards(b):
        if LL is L and L.contlit:
            cc = bdd.restrict(cc, {L.contlit[0]: L.contlit[1]})
        g = g & cc
    judge_eq(rep, rule, w, g, ~bdd.eq0(cell(k - P(1)) - cell(k)), small_cells, conf, trials=200, what="a cell starts where it differs from the cell before")


def small_cells(a, u, m):
    return float(int(4 * u)) if a[0] == "ld" and u is not None else None


def fill(pt, IVEC, MAX, conf):
    """the table is created with one slot per cell, one for the end, and marked as empty"""
    rep, v = pt.rep, pt.v
    rule = "the table of first positions has one slot per cell and one for the end, all marked empty"
    src = pt.root(IVEC)
    for d, n, c in pt.vec_ctor:
        if d == src:
            w = v.where(c.inst)
            judge_eq(rep, rule, w, pt.canon(n), MAX + P(1), None, conf, what="number of slots")
            if len(c.inst.ops) > 2 and c.inst.ops[2].ty == "ptr":
                g = pushed(v, c.inst, c.inst.ops[2])
                k = g.const()
                if k is None:
                    rep.undecided(rule, w, "initial value not constant", conf)
                elif int(k) % (1 << 32) != (1 << 32) - 1:
                    rep.bad(rule, w, "initial value %s" % k, None, conf)
                else:
                    rep.ok(rule, w, "initial value", conf)
            return
    rep.undecided(rule, v.fn.dname[:60], "creation of the table not found", conf)


def repair(pt, IB, MAX, conf):
    """empty cells get the position of the next non-empty one"""
    rep, v = pt.rep, pt.v
    rule = "every empty cell gets the first position of the next cell, for every number of threads"
    TID, TEAM = ("tid",), ("team",)
    single, scan = [], []
    for b, i, a, val in pt.stores():
        if not based(a, IB) or not isinstance(val, Poly):
            continue
        ls = v.loops_of(b)
        slot = (a - IB) / P(4)
        if len(ls) != 1 or any(x[0] == "ld" and IB.atom() in terms.atoms_of(x[1]) for x in terms.atoms_of(slot)) or slot.atom() is not None and slot.atom()[0] == "ld":
            continue
        L = ls[0]
        (scan if TID in terms.atoms_of(slot) or v.trip(L) is not None and TID in terms.atoms_of(v.trip(L)) else single).append((b, i, L, slot, val))
    if len(scan) != 1 or len(single) > 1:
        rep.undecided(rule, v.fn.dname[:60], "repair loops not found (%d, %d)" % (len(single), len(scan)), conf)
        return
    b, i, L, slot, val = scan[0]
    w = v.where(i)
    n = v.trip(L)
    K = L.K.atom()
    if n is None:
        rep.undecided(rule, w, "repair loop without closed bound", conf)
        return
    n = pt.canon(n)

    # the value is the smaller one of the slot and its successor
    dom = chunks(TEAM, TID, K)
    bad = []

    def spread(a):
        if a[0] == "ld" and a[1].atom() is not None and a[1].atom()[0] == "ite":
            x = a[1].atom()
            return terms.ite(x[1], atom(("ld", x[2])), atom(("ld", x[3])))
        return None

    def relative(a):
        if a[0] == "ld" and IB.atom() in terms.atoms_of(a[1]):
            d = (a[1] - IB) / P(4) - slot
            k = d.const()
            if k is None:
                k = next((j for j in (0, 1, -1, 2) if rnd.same(d, P(j), dom, 20)), None)
            if k is None:
                bad.append(a)
                return None
            return atom(("vh", P(int(k))))
        return None
    INV = P((1 << 32) - 1)

    def empty(l):
        """the mark of an empty cell is the largest number, also when it is written as -1"""
        if l[0] == "eq0":
            for s in (1, -1):
                x = (P(s) * l[1] - P(1)).atom()
                if x is not None and x[0] == "vh":
                    return bdd.eq0(atom(x) - INV)
        return bdd.var(l)

    def rel(t):
        if isinstance(t, Poly):
            t = terms.subst(terms.subst(t, spread), relative)
            return terms.subst(t, lambda a: terms.ite(bdd.compose(a[1], empty), a[2], a[3]) if a[0] == "ite" else None)
        return bdd.compose(bdd.bdd_subst(bdd.bdd_subst(t, lambda x: terms.subst(x, spread)), lambda x: terms.subst(x, relative)), empty)
    g = rel(val)
    for LL, c in v.guards(b):
        if LL is L and L.contlit:
            c = bdd.restrict(c, {L.contlit[0]: L.contlit[1]})
            if c is not bdd.T:
                g = terms.ite(rel(c), g, atom(("vh", P(0))))
    want = terms.minimum(atom(("vh", P(0))), atom(("vh", P(1))))
    if bad:
        rep.undecided(rule, w, "reads of other slots: %s" % terms.show_atom(bad[0])[:80], conf)
        return

    def vd(a, u, m):
        """first positions are increasing, the successor is known already"""
        if a[0] != "vh":
            return None
        k = int(a[1].const()) if isinstance(a[1], Poly) else int(float(a[1]))
        top = int(6 * m.rnd("vh top"))
        if k == 0:
            return float((1 << 32) - 1) if m.rnd("vh empty") < 0.5 else float(int((top + 1) * m.rnd("vh 0")))
        return float(top if k == 1 else top + int(3 * m.rnd("vh %d" % k)) if k > 1 else 0)
    judge_eq(rep, rule, w, g, want, vd, conf, trials=100, what="repaired value")
    one = None
    if single:
        sb, si, sL, sslot, sval = single[0]
        ok = search(pt, IB, sslot, sval, v, sb)
        if ok is None:
            rep.undecided(rule, v.where(si), "search of the next non-empty cell not understood", conf)
            return
        if ok is not True:
            rep.bad(rule, v.where(si), ok, None, conf)
            return
        for LL, c in v.guards(sb):
            if LL is sL and sL.contlit:
                c = bdd.restrict(c, {sL.contlit[0]: sL.contlit[1]})
            own = bdd.compose(bdd.bdd_subst(c, pt.canon), lambda l: bdd.T if l[0] == "eq0" and any((P(s) * l[1] - P(k)).atom() == ("ld", IB + P(4) * sslot) for s in (1, -1) for k in (1, -1, (1 << 32) - 1)) else None)
            if own is not bdd.T and any(terms.atoms_of(l[1]) & {TID, sL.K.atom()} for l in bdd.support(own) if isinstance(l[1], Poly)):
                rep.bad(rule, v.where(si), "the right end of a part is repaired only if %s" % bdd.show(own), None, conf)
                return
            if own is not bdd.T and bdd.support(own):
                rep.undecided(rule, v.where(si), "condition " + bdd.show(own)[:80], conf)
        rep.ok(rule, v.where(si), "right end of each part", conf)
        one = (sL, sslot)
    # coverage on a grid of table sizes and thread numbers
    for mx in list(range(1, 14)) + [29, 31, 32, 33, 63, 64, 65, 127, 130]:
        for team in (1, 2, 3, 4, 5, 7, 8, 13, 16):
            def ev(t, env):
                def dom(a, u, m):
                    if a in env:
                        return float(env[a])
                    return None
                return rnd.Model(1, dom, exact=True).poly(t)
            base = {TEAM: team}
            seed = maxsub(MAX, mx, pt)
            t0 = {}
            ends, done = set(), {}
            try:
                if one:
                    sL, sslot = one
                    st = v.trip(sL)
                    if st is None:
                        rep.undecided(rule, w, "loop over the parts has no closed bound", conf)
                        return
                    for k in range(int(ev(seed(pt.canon(st)), base))):
                        ends.add(round(ev(seed(sslot), {**base, sL.K.atom(): k})))
                for tid in range(team):
                    e = dict(base)
                    e[TID] = tid
                    prev = None
                    for k in range(max(0, round(ev(seed(n), e)))):
                        x = round(ev(seed(slot), {**e, K: k}))
                        if prev is None and not (x + 1 in ends or x + 1 == mx):
                            rep.bad(rule, w, "with %d cells and %d threads, thread %d starts at slot %d, whose successor is not known yet" % (mx, team, tid, x), None, conf)
                            return
                        if prev is not None and x != prev - 1:
                            rep.bad(rule, w, "with %d cells and %d threads, thread %d goes from slot %d to %d" % (mx, team, tid, prev, x), None, conf)
                            return
                        prev = x
                        done[x] = tid
            except rnd.Undef:
                rep.undecided(rule, w, "bounds not evaluated", conf)
                return
            miss = [x for x in range(mx) if x not in done and x not in ends]
            over = [x for x in list(done) + list(ends) if not 0 <= x < mx]
            if miss or over:
                rep.bad(rule, w, "with %d cells and %d threads slot %d is %s" % (mx, team, (miss or over)[0], "never repaired" if miss else "overwritten"), None, conf)
                return
    rep.ok(rule, w, "parts of the threads cover all cells", conf)


def chunks(TEAM, TID, K):
    def dom(a, u, m):
        if u is None:
            return None
        if a == TEAM:
            return float(1 + int(8 * u))
        if a == TID:
            return float(int((1 + int(8 * m.rnd(terms.show_atom(TEAM)))) * u))
        if a == K:
            return float(int(4 * u))
        if a[0] == "ld" or a[0].startswith(("girgs::", "hypergirgs::")):
            return float(8 * int(40 * u + 1))
        return None
    return dom


def maxsub(MAX, mx, pt):
    """replace the number of cells by a number"""
    at = MAX.atom()

    def f(t):
        if at is not None:
            return terms.subst(t, lambda a: P(mx) if a == at else None)
        # a sum of atoms: fix all but one to 0
        xs = sorted({a for m in MAX.t for a, e in m}, key=terms.show_atom)
        vals = {a: P(0) for a in xs}
        c = sum(c for m, c in MAX.t.items() if not m)
        vals[xs[0]] = P(mx - int(c))
        return terms.subst(t, lambda a: vals.get(a))
    return f


def search(pt, IB, slot, val, v, b):
    """value = table[first slot >= slot that is not empty]"""
    a = val.atom()
    if a is None or a[0] != "ld":
        return None
    d = (a[1] - IB) / P(4) - slot
    c = sum((k for m, k in d.t.items() if not m), 0)
    x = (d - P(c)).atom()
    if x is None or x[0] != "kx":
        return None
    if c != 0:
        return "the search for the next non-empty cell starts %s slots after the slot to be filled" % c if c > 0 else None
    L = next((l for l in v.loops.values() if l.h.id == x[-1]), None)
    if L is None or len(L.exits) != 1:
        return None
    go = bdd.F
    for q, s in L.exits:
        ins = [y for y in v.succ[q] if y in L.body]
        if len(ins) != 1:
            return None
        go = v.edge_cond(q, ins[0])
    sg = bdd.single(go)
    if sg is None or sg[0][0] != "eq0":
        return None
    p = pt.canon(sg[0][1])
    want = atom(("ld", IB + P(4) * (slot + atom(L.K.atom()))))
    for k in (1, -1, (1 << 32) - 1, -((1 << 32) - 1)):
        if sg[1] and (p - want == P(k) or -p - want == P(k)):
            return True
    if not sg[1]:
        for k in (1, -1):
            if p - want == P(k):
                return "the search for the next non-empty cell runs while the cell is not empty"
    return None


def layer_objects(pt, rule, calls, want, count, conf, dom):
    """the layer objects: one per layer, in order, with these constructor arguments"""
    rep, v = pt.rep, pt.v
    if len(calls) != 1:
        rep.undecided(rule, v.fn.dname[:60], "construction of the layers not found", conf)
        return
    c = calls[0]
    b = c.inst.bb
    ls = v.loops_of(b)
    w = v.where(c.inst)
    if len(ls) != 1 or v.trip(ls[0]) is None or not plain(v, b):
        rep.undecided(rule, w, "loop over the layers not understood", conf)
        return
    K = atom(ls[0].K.atom())
    judge_eq(rep, rule, w, pt.canon(v.trip(ls[0])), count, dom, conf, what="number of layers")
    ops = c.inst.ops[1:]
    ww = want(K)
    for o, (text, t) in zip(ops, ww):
        judge_eq(rep, rule, w, pt.canon(pushed(v, c.inst, o)), t, dom, conf, trials=100, what=text)
    if len(ops) != len(ww):
        rep.undecided(rule, w, "%d arguments" % len(ops), conf)


# ------------------------------------------------------------------------------------------------- GIRG
HELP = ("SpatialTree::weightLayerTargetLevel", "CoordinateHelper::numCellsInLevel", "CoordinateHelper::cellForPoint", "SpatialTree::partitioningBaseLevel")
TREE = "girgs::SpatialTree::"
COORD = "girgs::SpatialTreeCoordinateHelper::"


def c23_girg(rep, tmp, conf, defs, D):
    conf = "%s, D=%d" % (conf, D)
    fview.FView.PUREX = HELP
    d2 = ["VH_D=%d" % D] + defs
    M = units.build(tmp, "p%d" % D, [units.HARN + "/girg_tree.cpp", units.HARN + "/girg_probe.cpp"], d2, [], units.keep("SpatialTree::SpatialTree", *HELP))
    rep.unit("SpatialTree<%d> constructor, buildPartition [%s]" % (D, " ".join(defs) or "debug"))
    R = layout.records(units.HARN + "/girg_tree.cpp", d2)
    tr = layout.find(R, r"^girgs::SpatialTree<")
    mem = lambda p: layout.member(tr, p)
    size = layout.find(R, r"^girgs::Node<")[0]

    def off(n):
        p = Probe(M, n)
        r = p.ret()
        if len(p.a) > 1:
            r = terms.subst(r, lambda x: P(0) if x == p.a[1].atom() else None)
        return int((r - p.a[0]).const())
    oi, ow, ox, oc = [off("vh_node_" + k) for k in ("index", "weight", "coord", "cell")]
    cs = [f for f in M.fns.values() if not f.decl and policy.qual(f.dname).endswith("SpatialTree::SpatialTree")]
    v = fview.FView(max(cs, key=lambda f: len(list(f.insts()))))
    this, W, X = [v.term(a) for a in v.fn.args[:3]]
    pt = Part(rep, v, conf)
    NV, IV = this + P(mem(r"^(const )?std::vector<girgs::Node<")), this + P(mem(r"^(const )?std::vector<unsigned int>"))
    alias = dict(pt.alias)
    # loads of the members keep the name of the member
    NB, IB = atom(("ld", NV)), atom(("ld", IV))
    for k in (NV, IV):
        pt.alias.pop(k, None)
    n = (atom(("ld", W + P(8))) - atom(("ld", W))) / P(8)
    wb, we = atom(("ld", W)), atom(("ld", W + P(8)))
    w0 = atom(("ld", atom(("std::min_element", wb, we))))
    wn = atom(("ld", atom(("std::max_element", wb, we))))
    log2 = lambda t: terms.log(t) / terms.log(P(2))
    count = P(1) + atom(("floor", log2(wn) - log2(w0)))
    lev = lambda l: atom((TREE + "weightLayerTargetLevel", this, l))
    numc = lambda l: atom((COORD + "numCellsInLevel", l))

    def dom(a, u, m):
        if a == w0.atom():
            return 1.0
        if a == wn.atom():
            return weight(m, "wn", 40 * m.draw(a))
        if a[0] == "ld" and u is None and wb.atom() in terms.atoms_of(a[1], deep=False):
            return weight(m, terms.show_atom(m.keyed(a)), math.log2(m.atom(wn.atom())) * m.draw(a))
        if u is not None and a in (wb.atom(), we.atom()):
            return 0.0 if a == wb.atom() else 800.0
        return None
    dom.exact = True
    # layer table
    rule = "cells of a weight layer start after the cells of the layers before"
    pf = prefix(pt, rule, count, lambda l: numc(lev(l)), True, conf, dom)
    if pf is None:
        return
    T, L, rec, pb = pf
    TB = atom(("ld", T))
    last = None
    for b, i, a, val in pt.stores():
        if not v.loops_of(b) and a == atom(("ld", T + P(8))) - P(4) or not v.loops_of(b) and a == TB + P(4) * count:
            last = (i, val)
    r2 = "the table of first positions ends after the cells of all layers"
    if last is None:
        rep.undecided(r2, v.fn.dname[:60], "last entry not found", conf)
    else:
        fin = [a for a in terms.atoms_of(last[1]) if a[0] == "fin"]
        if len(fin) == 1 and fin[0][1] == rec.atom():
            rep.ok(r2, v.where(last[0]), "", conf)
        else:
            rep.undecided(r2, v.where(last[0]), show(last[1])[:80], conf)
    maxs = [atom(("ld", atom(("ld", T + P(8))) - P(4))), atom(("ld", TB + P(4) * count))]
    MAX = maxs[0]
    # records
    rule = "a vertex is filed in weight layer floor(log2(w/w0)), in the cell of its position on the layer's level"
    wt = lambda k: atom(("ld", wb + P(8) * k))
    layer = lambda k: fview.trunc_term(log2(wt(k)) - log2(w0))

    def cell(k, val):
        at = [a for a in terms.atoms_of(val) if a[0] == COORD + "cellForPoint"]
        adr = NB + P(size) * k + P(ox)
        if len(at) != 1 or pt.canon(at[0][1]) != adr:
            return None
        return atom(("ld", TB + P(4) * layer(k))) + atom((COORD + "cellForPoint", adr, lev(layer(k))))
    want = {oi: ("index", lambda k, val: k), ow: ("weight", lambda k, val: wt(k)), oc: ("cell", cell)}
    coords = {}
    for d in range(D):
        coords[ox + 8 * d] = ("coordinate %d" % d, lambda k, val, d=d: atom(("ld", atom(("ld", atom(("ld", X)) + P(24) * k)) + P(8 * d))))
    fields(pt, rule, NB, size, n, want, conf, dom)
    copied(pt, rule, NB, size, coords, conf)
    marks(pt, NB, size, oc, IB, MAX, n, conf)
    pt.alias = alias
    fill(pt, IV, MAX, conf)
    for k in (NV, IV):
        pt.alias.pop(k, None)
    repair(pt, IB, MAX, conf)
    sort(pt, M, rep, oc, NV, MAX, conf)
    sortkey(M, rep, size, oc, conf)
    keyfn(rep, tmp, "pk%d" % D, [units.HARN + "/girg_tree.cpp"], d2, "girgs::Node<", oc, conf)
    fview.FView.PUREX = HELP
    rule = "every weight layer reads its own cells"
    calls = [c for c in v.calls() if (c.q or "").endswith(("vector::emplace_back", "vector::push_back")) and len(c.inst.ops) == 4]
    layer_objects(pt, rule, calls, lambda K: [("level", lev(K)), ("vertices", NB), ("first cell", IB + P(4) * atom(("ld", TB + P(4) * K)))], count, conf, dom)
    levels(rep, tmp, D, defs, conf, mem, v, this, w0, wn, count, dom, wb, we)


def weight(m, key, x):
    """2^x; powers of two (borders of the layers) half of the time"""
    return 2.0 ** (int(x) if m.rnd("pow" + key) < 0.5 else x)


def sort(pt, M, rep, oc, vec, MAX, conf):
    rule = "vertices are sorted by their cell"
    v = pt.v
    for c in v.calls():
        q = c.q or ""
        if q.startswith("intsort::intsort") or q.startswith("std::sort") or q.startswith("std::stable_sort"):
            break
    else:
        rep.undecided(rule, v.fn.dname[:60], "no sort found", conf)
        return
    w = v.where(c.inst)
    if not q.startswith("intsort::intsort"):
        rep.undecided(rule, w, "sorted by " + q, conf)
        return
    judge_eq(rep, rule, w, pt.canon(v.num(v.at(c.inst.ops[0], c.inst.bb))), vec, None, conf, what="sorted array")
    mx = pt.canon(v.num(v.at(c.inst.ops[1], c.inst.bb)))
    d = mx - MAX
    if d.const() is not None:
        if d.const() < -1:
            rep.bad(rule, w, "largest key %s, required at least %s" % (show(mx), show(MAX - P(1))), None, conf)
        else:
            rep.ok(rule, w, "largest key", conf)
    else:
        judge_eq(rep, rule, w, mx, MAX, None, conf, what="largest key")


def sortkey(M, rep, size, oc, conf):
    """the sort reads the cell of a vertex as its key"""
    rule = "vertices are sorted by their cell"
    offs, where = set(), None
    for f in M.fns.values():
        if f.decl or "intsort::" not in f.dname or "IntSortImpl" not in f.dname or not policy.qual(f.dname).endswith(("::sort", "::move_to_queues")):
            continue
        v = fview.FView(f)
        this = v.term(f.args[0]).atom()
        for b in v.rpo:
            for i in b.insts:
                if i.op != "load" or i.ty != "i32":
                    continue
                try:
                    a = v.addr(i.ops[0], b)
                except (AnalysisError, KeyError):
                    continue
                at = terms.atoms_of(a, deep=False)
                if any(x[0] == "alloca" for x in at) or at <= {this}:
                    continue
                c = sum(c for m, c in a.t.items() if not m)
                if c == int(c):
                    offs.add(int(c) % size)
                    where = v.where(i)
    if offs == {oc}:
        rep.ok(rule, where, "key", conf)
    elif offs and oc not in offs:
        rep.bad(rule, where, "the key is read from offset %s of a vertex, its cell is at offset %d" % (sorted(offs), oc), None, conf)
    else:
        rep.undecided(rule, where or "IntSort.h", "key: offsets %s" % sorted(offs), conf)


def keyfn(rep, tmp, name, srcs, defs, typ, oc, conf):
    """the key function returns the whole cell id"""
    rule = "vertices are sorted by their cell"
    M = units.build(tmp, name, srcs, defs, [], units.keep("operator()"))
    hit = False
    for f in M.fns.values():
        if f.decl or not re.search(r"(\{lambda\}|\$_\d+)::operator\(\)$", policy.qual(f.dname)):
            continue
        ps = strs.params(f.dname)
        if len(ps) != 1 or typ not in ps[0] or "iterator" in ps[0]:
            continue
        p = Probe(M, f.name)
        r = p.ret()
        hit = True
        if not isinstance(r, Poly):
            rep.undecided(rule, p.where(), "key not understood", conf)
            continue
        # the closure carries no data; the vertex is the last argument
        judge_eq(rep, rule, p.where(), r, atom(("ld", p.a[-1] + P(oc))), lambda a, u, m: float(int((2 ** 32) * u)) if a[0] == "ld" and u is not None else None, conf, what="sort key")
    if not hit:
        rep.undecided(rule, "buildPartition", "key function not found", conf)


def levels(rep, tmp, D, defs, conf, mem, cv, this, w0, wn, count, dom, wb, we):
    """the scalar members and the level of a weight layer"""
    fview.FView.PUREX = ()
    M = units.build(tmp, "q%d" % D, [units.HARN + "/girg_tree.cpp"], ["VH_D=%d" % D] + defs, [], units.keep("SpatialTree::SpatialTree", "SpatialTree::weightLayerTargetLevel", "SpatialTree::partitioningBaseLevel"))
    rule = "weight layer i is filed on level max(0, (floor(log2(W/w0^2)) - i - 1) / D)"
    fs = units.fns_like(M, "SpatialTree::weightLayerTargetLevel")
    if not fs:
        rep.undecided(rule, "SpatialTree.inl", "weightLayerTargetLevel not found", conf)
        return
    p = Probe(M, fs[0].name)
    t = p.ret()
    if t is None:
        rep.undecided(rule, p.where(), "not understood", conf)
        return
    Wt = atom(("std::accumulate", wb, we, P(0)))
    l2 = lambda t: terms.log(t) / terms.log(P(2))
    base = fview.trunc_term(l2(Wt) - P(2) * l2(w0))
    want = terms.maximum(P(0), fview.intdiv(base - p.a[1] - P(1), P(D)))
    # members read by the function -> what the constructor stores there
    from checks.pairs import scalar_stores
    st = dict(scalar_stores(cv))

    def f(a):
        if a[0] == "ld":
            k = (a[1] - p.a[0]).const()
            if k is not None and int(k) in st:
                x = st[int(k)]
                return x if isinstance(x, Poly) else None
        return None
    got = terms.subst(t, f)

    def d2(a, u, m):
        if a[0] == "std::accumulate":
            return float(2.0 ** (40 * m.rnd("W")))
        if u is not None and a == p.a[1].atom():
            return float(int(12 * u))
        if a == w0.atom():
            return 1.0
        return dom(a, u, m)
    judge_eq(rep, rule, p.where(), got, want, d2, conf, trials=300, what="level")


# ------------------------------------------------------------------------------------------------- HRG
def c23_hyper(rep, tmp, conf, defs):
    H = ("RadiusLayer::partitioningBaseLevel", "AngleHelper::numCellsInLevel", "AngleHelper::cellForPoint")
    fview.FView.PUREX = H
    M = units.build(tmp, "rl", [units.HARN + "/hrg_tree.cpp", units.SRC + "/hypergirgs/source/RadiusLayer.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp"], defs, [],
                    units.keep("RadiusLayer::buildPartition", "HyperbolicTree::HyperbolicTree", *H))
    rep.unit("RadiusLayer::buildPartition [%s]" % (" ".join(defs) or "debug"))
    R_ = layout.records(units.HARN + "/hrg_tree.cpp", defs)
    pr = layout.find(R_, r"^hypergirgs::Point$")
    size = pr[0]
    fs = units.fns_like(M, "RadiusLayer::buildPartition")
    if not fs:
        raise AnalysisError("RadiusLayer::buildPartition not found")
    v = fview.FView(fs[0])
    ret, RAD, ANG, R, h, PV, IV = [v.term(a) for a in v.fn.args[:7]]
    pt = Part(rep, v, conf)
    alias = dict(pt.alias)
    for k in (PV, IV):
        pt.alias.pop(k, None)
    NB, IB = atom(("ld", PV)), atom(("ld", IV))
    rb, ab = atom(("ld", RAD)), atom(("ld", ANG))
    n = (atom(("ld", RAD + P(8))) - rb) / P(8)
    count = atom(("ceil", R / h))
    numc = lambda l: atom(("hypergirgs::AngleHelper::numCellsInLevel", l))

    def dom(a, u, m):
        if a == R.atom() and u is not None:
            return float(int(1 + 60 * u)) if m.rnd("intR") < 0.5 else 1.0 + 60 * u
        if a == h.atom():
            return 1.0
        if u is not None and a == ("ld", RAD + P(8)):
            return 800.0
        if a == rb.atom():
            return 0.0
        if a[0] == "ld" and u is None and rb.atom() in terms.atoms_of(a[1], deep=False):
            x, u = m.rnd("r"), m.draw(a)
            Rv = m.atom(R.atom())
            return 0.0 if x < 0.15 else Rv * u if x < 0.7 else max(0.0, Rv - int(Rv * u))
        if a[0] == "hypergirgs::AngleHelper::numCellsInLevel":
            return float(2 ** int(8 * m.draw(a)))
        return None
    dom.exact = True
    # the sampler asks for layers of height 1
    rule = "the hyperbolic sampler files its points in radius layers of height 1"
    for f in M.fns.values():
        if f.decl or not policy.qual(f.dname).endswith("HyperbolicTree::HyperbolicTree"):
            continue
        tv = fview.FView(f)
        for c in tv.calls():
            if (c.q or "").endswith("RadiusLayer::buildPartition"):
                at = [tv.at(o, c.inst.bb) for o in c.inst.ops]
                A = [tv.term(a) for a in f.args]
                for k, j, text in ((1, 1, "radii"), (2, 2, "angles"), (3, 4, "disk radius")):
                    judge_eq(rep, rule, tv.where(c.inst), tv.num(at[k]), A[j], None, conf, what=text)
                judge_eq(rep, rule, tv.where(c.inst), tv.num(at[4]), P(1), lambda a, u, m, R=A[4].atom(): 1.0 + 60 * u if a == R and u is not None else None, conf, what="height")
    # level table
    rule = "radius layer l (radii R-l-1 to R-l) is filed on the level for its inner border and the outermost layer"
    LT = None
    for b, i, a, val in pt.stores():
        if isinstance(val, Poly) and val.atom() is not None and val.atom()[0] == "hypergirgs::RadiusLayer::partitioningBaseLevel":
            base = [x for x in terms.atoms_of(a) if x[0] == "ld" and x[1].atom() is not None and x[1].atom()[0] == "alloca"]
            if len(base) != 1:
                continue
            ix = pt.lin(a, atom(base[0]), 4)
            c = pt.once(b, ix[0], count) if ix else None
            if c is None or not plain(v, b):
                continue
            LT = base[0][1]
            w = v.where(i)
            l = ix[0]
            va = val.atom()
            inner = R - l * h - h
            outer = R - h
            judge_eq(rep, rule, w, c[1], P(0), dom, conf, what="first layer")
            judge_eq(rep, rule, w, c[2], count, dom, conf, what="number of layers")
            # the base level is symmetric in its two radii
            x, y = (va[1], va[2]) if not rnd.same(va[2], inner, dom, 30) else (va[2], va[1])
            judge_eq(rep, rule, w, x, inner, dom, conf, trials=100, what="inner border")
            judge_eq(rep, rule, w, y, outer, dom, conf, trials=100, what="inner border of the outermost layer")
            judge_eq(rep, rule, w, va[3], R, dom, conf, trials=100, what="disk radius")
    if LT is None:
        rep.undecided(rule, v.fn.dname[:60], "table of levels not found", conf)
        return
    lev = lambda l: atom(("ld", atom(("ld", LT)) + P(4) * l))
    rule = "cells of a radius layer start after the cells of the layers inside of it"
    pf = prefix(pt, rule, count, lambda l: numc(lev(l)), False, conf, dom)
    if pf is None:
        return
    T, L, rec, pb = pf
    TB = atom(("ld", T))
    # direction: the outermost layer (0) comes last
    a = fview.split_lin(next(pt.lin(a, TB, 4)[0] for b, i, a, val in pt.stores() if val is not None and isinstance(val, Poly) and val == rec and TB.atom() in terms.atoms_of(a)), L.K.atom())[0].const()
    first = lambda l: atom(("ld", TB + P(4) * l))
    if a == -1:
        MAX = first(P(0)) + numc(lev(P(0)))
        rep.ok(rule, v.where(pb.insts[0]), "innermost layer first", conf)
    else:
        rep.undecided(rule, v.where(pb.insts[0]), "outermost layer first", conf)
        return
    rule = "a point of radius r is filed in radius layer floor(R - r), at most the innermost one, in the cell of its angle on the layer's level"
    rad = lambda k: atom(("ld", rb + P(8) * k))
    ang = lambda k: atom(("ld", ab + P(8) * k))
    layer = lambda k: terms.minimum(fview.trunc_term(R / h - rad(k) / h), count - P(1))
    oi, oc = point_fields(pr)
    want = {oi: ("index", lambda k, val: k),
            oc: ("cell", lambda k, val: first(layer(k)) + atom(("hypergirgs::AngleHelper::cellForPoint", ang(k), lev(layer(k)))))}
    fields(pt, rule, NB, size, n, want, conf, dom)
    marks(pt, NB, size, oc, IB, MAX, n, conf)
    pt.alias = alias
    fill(pt, IV, MAX, conf)
    for k in (PV, IV):
        pt.alias.pop(k, None)
    repair(pt, IB, MAX, conf)
    sort(pt, M, rep, oc, PV, MAX, conf)
    sortkey(M, rep, size, oc, conf)
    keyfn(rep, tmp, "rk", [units.SRC + "/hypergirgs/source/RadiusLayer.cpp"], defs, "hypergirgs::Point", oc, conf)
    # layers: the empty inner ones are pruned
    rule = "every radius layer reads its own cells; layers without points are dropped only inside of all points"
    calls = [c for c in v.calls() if (c.q or "").endswith(("vector::emplace_back", "vector::push_back")) and len(c.inst.ops) == 6]
    if len(calls) == 1:
        b = calls[0].inst.bb
        ls = v.loops_of(b)
        t = pt.canon(v.trip(ls[0])) if len(ls) == 1 and v.trip(ls[0]) is not None else None
        kx = [x for x in (terms.atoms_of(t) if t is not None else ()) if x[0] == "kx"]
        w = v.where(calls[0].inst)
        if len(kx) == 1 and t == P(1) + atom(kx[0]):
            l = next((l for l in v.loops.values() if l.h.id == kx[0][-1]), None)
            q, s = l.exits[0]
            ins = [y for y in v.succ[q] if y in l.body]
            go = v.edge_cond(q, ins[0]) if len(l.exits) == 1 and len(ins) == 1 else None
            if go is None:
                rep.undecided(rule, w, "pruning loop", conf)
            else:
                lk = atom(l.K.atom())
                cellmin = atom(("ld", NB + P(oc)))
                judge_eq(rep, rule, v.where(q.insts[-1]), go, bdd.igt0(first(lk) - cellmin), small_cells, conf, trials=200, what="layers are dropped while they start after the first point")
        elif t is not None and rnd.same(t, count, dom, 30):
            rep.ok(rule, w, "no layer is dropped", conf)
        else:
            rep.undecided(rule, w, "number of layers", conf)
        count2 = t if t is not None else count
        layer_objects(pt, rule, calls, lambda K: [("inner radius", R - K * h - h), ("outer radius", R - K * h), ("level", lev(K)), ("points", NB),
                                                  ("first cell", IB + P(4) * first(K))], count2, conf, dom)
    else:
        rep.undecided(rule, v.fn.dname[:60], "construction of the layers not found", conf)


def point_fields(rec):
    """offsets of the index and of the cell of a point"""
    by = {n: o for o, t, n in rec[1]}
    i = by.get("id", [o for o, t, n in rec[1] if "int" in t][0])
    return i, by.get("cell_id", [o for o, t, n in rec[1] if "int" in t][1])
