"""Coverage of node pairs by the recursive samplers (C05, C06)."""
import bisect
import math
import random
import re
import bdd
import fview
import heap
import ir
import layout
import policy
import rnd
import terms
import units
from heap import Data, Missing, HModel, Interp, Space
from ir import AnalysisError, Inst
from rnd import Undef
from terms import P, atom
from checks import geom

INF = 1e30
HELP = ("CoordinateHelper::cellOfLevel", "CoordinateHelper::touching", "CoordinateHelper::dist", "Node::distance", "pow_to_the")
PUSHQ = re.compile(r"^std::(vector|deque)::(push_back|emplace_back)$")
NODATA = ("Data",)


class Sites:
    """callback, recursion and append sites of the sampler functions"""

    def __init__(self, M, root, cb="vh_cb"):
        self.M, self.cb = M, cb
        graph = {f.name: {i.x.v for i in f.insts() if i.op == "call" and getattr(i.x, "kind", "") == "fn"} for f in M.fns.values() if not f.decl}
        reach, todo = set(), [root]
        while todo:
            n = todo.pop()
            for c in graph.get(n, ()):
                if c in graph and c not in reach:
                    reach.add(c)
                    todo.append(c)
        below = {n for n in reach if cb in graph[n]}
        ch = True
        while ch:
            ch = False
            for n in reach - below:
                if graph[n] & below:
                    below.add(n)
                    ch = True
        self.samplers = below                                 # functions that lead to a callback
        self.reach = reach
        self.views, self.dr = {}, {}

    def view(self, n):
        if n not in self.views:
            self.views[n] = fview.FView(self.M.fns[n])
        return self.views[n]

    def effects(self, n, fam):
        """[(kind, callee, block, inst, [args])]"""
        v = self.view(n)
        out = []
        for b in v.rpo:
            for i in b.insts:
                if i.op != "call" or getattr(i.x, "kind", "") != "fn":
                    continue
                c = i.x.v
                q = policy.qual(ir.demangle(c)) if c.startswith("_Z") else c
                if c == self.cb:
                    out.append(("cb", c, b, i, [v.num(v.at(o, b)) for o in i.ops]))
                elif c in fam:
                    out.append(("rec", c, b, i, [v.num(v.at(o, b)) for o in i.ops]))
                elif PUSHQ.match(q):
                    out.append(("push", q, b, i, [v.num(v.at(i.ops[0], b))] + [pushed(v, i, o) for o in i.ops[1:]]))
        return out


def pushed(v, call, o):
    """term of a value handed over by reference: the store into the temporary right before the call"""
    r = fview.rootval(o)
    if isinstance(r, Inst) and r.op == "alloca" and r is o:
        st = [s for s in v.stores().get(r, []) if s.bb is call.bb and s.idx < call.idx]
        if st:
            return v.num(v.at(st[-1].ops[0], call.bb))
    if o.ty != "ptr":
        return v.num(v.at(o, call.bb))
    return atom(("ld", v.num(v.at(o, call.bb))))


# ------------------------------------------------------------------------------------------------- GIRG model
class Girg:
    """one random instance of the GIRG data structure"""

    def __init__(self, lib, rng, kind):
        D = self.D = lib.D
        self.lib, self.rng = lib, rng
        maxbits = 12 if rng.random() < 0.5 else 28
        maxT = maxbits // D
        self.B = rng.randint(0, D * maxT + D) if kind != "deep" else rng.randint(D * min(2, maxT) + 2, D * maxT + D)
        self.K = rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(5, 12)
        self.w0 = rng.uniform(0.5, 2.0)
        self.W = self.w0 ** 2 * 2.0 ** self.B * rng.uniform(1.05, 1.9)
        self.wn = self.w0 * 2.0 ** (self.K - 1) * rng.uniform(1.05, 1.9)
        self.alpha = INF if rng.random() < 0.25 else rng.uniform(1.05, 6) if rng.random() < 0.8 else rng.uniform(6, 40)
        self.levels = self.pbl(0, 0) + 1
        self.T = [max(int((self.B - i - 1) / D), 0) for i in range(self.K)]

    def pbl(self, i, j):
        return max(int((self.B - i - j - 2) / self.D), 0)

    def cells(self, level, kind):
        """a pair of cells the recursion can reach: touching parents"""
        D, rng = self.D, self.rng
        n = 1 << (D * level)
        f = geom.first(D, level)
        a = rng.randrange(n)
        if kind == "same" or level == 0:
            return f + a, f + a
        ca = [geom.demorton(a, D, d) for d in range(D)]
        for _ in range(200):
            m = 1 << level
            cb = [(x + rng.choice((-1, 0, 0, 1) if kind == "touch" else (-3, -2, -1, 0, 1, 2, 3))) % m for x in ca]
            b = geom.morton(cb, D, level)
            if a == b:
                continue
            t = self.touching(ca, cb, level)
            if t != (kind == "touch"):
                continue
            if not self.touching([x >> 1 for x in ca], [x >> 1 for x in cb], level - 1):
                continue
            return f + min(a, b), f + max(a, b)
        return None

    def touching(self, ca, cb, l):
        m = 1 << l
        return all(min(abs(x - y), m - abs(x - y)) <= 1 for x, y in zip(ca, cb))

    def dist(self, A, B, l):
        D = self.D
        f = geom.first(D, l)
        m = 1 << l
        r = 0
        for d in range(D):
            x = abs(geom.demorton(A - f, D, d) - geom.demorton(B - f, D, d))
            r = max(r, min(x, m - x))
        return max(0.0, (r - 1) / m)

    def desc(self, cell, level, T):
        """index range of the descendants of a cell at level T"""
        k = 1 << (self.D * (T - level))
        c = cell - geom.first(self.D, level)
        return c * k, (c + 1) * k

    def fill(self, level, A, B):
        """points of every layer, mostly in the two cells; positions are sorted by layer and cell"""
        rng = self.rng
        self.cells_of = []                                    # per layer: cell of every modelled point, ascending
        self.crowd = []                                       # per layer: (cell, number of further points that are not modelled)
        self.start = [0]
        for i in range(self.K):
            n = 1 << (self.D * self.T[i])
            cs = [rng.randrange(n) for _ in range(rng.randint(0 if i else 1, 4))]
            own = []
            if self.T[i] >= level:
                own = [self.desc(c, level, self.T[i]) for c in {A, B}]
                for lo, hi in own:
                    num = rng.choice((0, 1, 1, 2, 2, 3) if self.K < 5 else (0, 0, 1)) if rng.random() < 0.93 else rng.randint(4, 18)
                    cs += [rng.randrange(lo, hi) for _ in range(num)]
                    cs += [rng.choice((lo, hi - 1)) for _ in range(rng.choice((0, 0, 1)))]
            self.cells_of.append(sorted(cs))
            x = rng.randrange(n)
            far = rng.random() < 0.25 and not any(lo <= x < hi for lo, hi in own)
            self.crowd.append((x, rng.choice((100, 5000, 10 ** 6, 10 ** 7)) if far else 0))
            self.start.append(self.start[-1] + len(cs) + self.crowd[-1][1])
        self.n = self.start[-1]
        self.layer, self.cell = {}, {}
        for i in range(self.K):
            for k, c in enumerate(self.cells_of[i]):
                p = self.start[i] + k + (self.crowd[i][1] if c > self.crowd[i][0] else 0)
                self.layer[p], self.cell[p] = i, c
        ids = rng.sample(range(self.n), len(self.layer))
        self.index = dict(zip(self.layer, ids))
        self.byidx = dict(zip(ids, self.layer))

    def prefix(self, i, k):
        x, g = self.crowd[i]
        return self.start[i] + bisect.bisect_left(self.cells_of[i], k) + (g if k > x else 0)

    def points(self, cell, level):
        """[(layer, [positions])] of a cell"""
        out = []
        for i in range(self.K):
            if self.T[i] >= level:
                lo, hi = self.desc(cell, level, self.T[i])
                out.append((i, list(range(self.prefix(i, lo), self.prefix(i, hi)))))
        return out

    def maxblock(self, level, A, B):
        pa, pb = self.points(A, level), self.points(B, level)
        return max([len(x) * len(y) for _, x in pa for _, y in pb] + [0]) + 3

    def read_prefix(self, o):
        if o % 4:
            return None
        k = o // 4
        for i in range(self.K):
            m = 1 << (self.D * self.T[i])
            if k < m:
                return float(self.prefix(i, k))
            k -= m
        return float(self.n) if k == 0 else None

    # -------------------------------------------------------------- memory image
    def memory(self, data=None):
        L, sp = self.lib, Space()
        self.sp = sp
        self.data = data
        nodes = self.nodes = sp.alloc(self.read_node, "nodes")
        pre = sp.alloc(self.read_prefix, "cell index")
        start = [0]
        for i in range(self.K):
            start.append(start[-1] + (1 << (self.D * self.T[i])))
        lay = {}
        for i in range(self.K):
            img = L.layer_image(self.T[i], nodes, pre + 4 * start[i])
            for o, x in img.items():
                lay[i * L.layer_size + o] = x
        layers = sp.alloc(lay.get, "layers")
        lp = {}
        for l in range(self.levels):
            prs = [(i, j) for i in range(self.K) for j in range(self.K) if self.pbl(i, j) == l]
            img = {}
            for k, (i, j) in enumerate(prs):
                img[8 * k], img[8 * k + 4] = float(i), float(j)
            r = sp.alloc(img.get, "layer pairs")
            lp[24 * l], lp[24 * l + 8], lp[24 * l + 16] = r, r + 8 * len(prs), r + 8 * len(prs)
        pairs = sp.alloc(lp.get, "layer pair table")
        gens = sp.alloc(lambda o: None, "gens")
        tree = {}
        for k, (b, e) in {"nodes": (nodes, nodes + L.node_size * self.n), "index": (pre, pre + 4.0 * (start[-1] + 1)),
                          "layers": (layers, layers + L.layer_size * self.K), "pairs": (pairs, pairs + 24 * self.levels),
                          "gens": (gens, gens + 2504 * 4)}.items():
            o = L.vec.get(k)
            if o is not None:
                tree[o], tree[o + 8], tree[o + 16] = b, e, e
        self.this = sp.alloc(tree.get, "tree")
        L.ctor_image(self, tree)
        return sp

    def read_node(self, o):
        L = self.lib
        p, f = divmod(o, L.node_size)
        if p >= self.n:
            raise OutOfCell("node %d of %d" % (p, self.n))
        if f == L.off_index:
            return float(self.index.get(p, self.n + p))
        if self.data is not None:
            return self.data.field(p, f)
        raise Data()


class OutOfCell(Exception):
    pass


class GirgLib:
    def __init__(self, tmp, D, defs, rep):
        self.D = D
        fview.FView.PUREX = HELP
        self.M = M = units.build(tmp, "t%d" % D, [units.HARN + "/girg_tree.cpp", units.HARN + "/girg_probe.cpp"], ["VH_D=%d" % D] + defs, [],
                                 units.keep(*HELP, "SpatialTree::SpatialTree", "SpatialTree::generateEdges"))
        rep.unit("girgs/SpatialTree<%d> with WeightLayer, Node [%s]" % (D, " ".join(defs) or "debug"))
        R = layout.records(units.HARN + "/girg_tree.cpp", ["VH_D=%d" % D] + defs)
        R.update(layout.records(units.HARN + "/girg_probe.cpp", ["VH_D=%d" % D] + defs))
        t = layout.find(R, r"^girgs::SpatialTree<")
        self.tree = t
        mem = lambda p: layout.member(t, p)
        self.vec = {"nodes": mem(r"^(const )?std::vector<girgs::Node<"), "index": mem(r"^(const )?std::vector<unsigned int>"),
                    "layers": mem(r"^(const )?std::vector<girgs::WeightLayer<"),
                    "pairs": mem(r"^(const )?std::vector<std::vector<std::pair<unsigned int, unsigned int>"), "gens": mem(r"^(const )?std::vector<std::mersenne")}
        self.node_size = layout.find(R, r"^girgs::Node<")[0]
        self.layer_size = layout.find(R, r"^girgs::WeightLayer<")[0]
        self.off_index = self.off("vh_node_index")
        self.off_weight = self.off("vh_node_weight")
        self.off_coord = self.off("vh_node_coord")
        self.off_cell = self.off("vh_node_cell")
        self.lay = heap_image(M, "vh_layer_ctor")
        root = [f for f in M.fns.values() if not f.decl and policy.qual(f.dname).endswith("SpatialTree::generateEdges")]
        ctor = [f for f in M.fns.values() if not f.decl and policy.qual(f.dname).endswith("SpatialTree::SpatialTree")]
        if not root or not ctor:
            raise AnalysisError("generateEdges / constructor of SpatialTree<%d> not found" % D)
        size = lambda f: len(list(f.insts()))            # complete/base constructor variants: one only forwards
        self.root, self.ctor = max(root, key=size), max(ctor, key=size)
        self.cv = fview.FView(self.ctor)
        self.ctor_st = scalar_stores(self.cv)
        self.S = Sites(M, self.root.name)

    def off(self, probe):
        from probe import Probe
        p = Probe(self.M, probe)
        r = p.ret()
        if len(p.a) > 1:
            r = terms.subst(r, lambda x: P(0) if x == p.a[1].atom() else None)
        return int((r - p.a[0]).const())

    def layer_image(self, T, base, pre):
        return {o: f([None, float(T), base, pre]) for o, f in self.lay.items()}

    def fns(self, cfg):
        D = self.D
        C = "girgs::SpatialTreeCoordinateHelper::"

        def cells(m, a):
            l = int(m.poly(a[3]))
            f = geom.first(D, l)
            A, B = int(m.poly(a[1])), int(m.poly(a[2]))
            if not (0 <= l and f <= A < geom.first(D, l + 1) and f <= B < geom.first(D, l + 1)):
                raise OutOfCell("cells %d, %d are not on level %d" % (A, B, l))
            return A, B, l, f

        def touching(m, a):
            A, B, l, f = cells(m, a)
            return float(cfg.touching([geom.demorton(A - f, D, d) for d in range(D)], [geom.demorton(B - f, D, d) for d in range(D)], l))

        def dist(m, a):
            A, B, l, f = cells(m, a)
            return cfg.dist(A, B, l)

        def distance(m, a):
            p, q = m.poly(a[1]), m.poly(a[2])
            x, y = cfg.sp.name(p), cfg.sp.name(q)
            if x[0] != "nodes" or y[0] != "nodes" or x[1] % self.node_size or y[1] % self.node_size:
                raise Missing("distance of something that is not a node")
            if cfg.data is None:
                raise Data()
            return cfg.data.distance(x[1] // self.node_size, y[1] // self.node_size)

        def span(m, a):
            x, y = cfg.sp.name(m.poly(a[1])), cfg.sp.name(m.poly(a[2]))
            if x[0] != "input" or y[0] != "input":
                raise Missing("range of a reduction")
            return (y[1] - x[1]) / 8.0

        def whole(m, a):
            if span(m, a) != cfg.n:
                raise Missing("reduction over a part of the weights")
            return True

        def col(m, a):
            c, l = int(m.poly(a[1])), 0
            while geom.first(D, l + 1) <= c:
                l += 1
            return float(c - geom.first(D, l))
        return {C + "touching": touching, C + "dist": dist, "girgs::Node::distance": distance, C + "cellOfLevel": col,
                "girgs::pow_to_the": lambda m, a: m.pw(m.poly(a[1]), float(D)),
                "std::min_element": lambda m, a: whole(m, a) and cfg.cells3, "std::max_element": lambda m, a: whole(m, a) and cfg.cells3 + 8,
                "std::accumulate": lambda m, a: span(m, a) / cfg.n * cfg.W + m.poly(a[3])}

    def ctor_image(self, cfg, tree):
        """scalar members: the constructor's stores evaluated for this instance"""
        sp = cfg.sp
        cfg.cells3 = sp.alloc({0: cfg.w0, 8: cfg.wn}.get, "extreme weights")
        v = cfg_vec(sp, cfg.n)
        env = bind(self.cv, [cfg.this, v, v, cfg.alpha, 0.0, 0.0])
        m = HModel(0, sp, env, self.fns(cfg))
        for off, t in self.ctor_st:
            try:
                tree[off] = m.value(t)
            except (Data, Missing, Undef, OutOfCell):
                pass


def bind(v, args):
    """argument atoms -> values"""
    env = {}
    for p, x in zip(v.fn.args, args):
        t = v.term(p)
        if isinstance(t, terms.Poly) and t.atom() is not None and x is not None:
            env[t.atom()] = x
    return env


def cfg_vec(sp, n):
    body = sp.alloc(lambda o: 1.0, "input")
    return sp.alloc({0: body, 8: body + 8.0 * n, 16: body + 8.0 * n}.get, "input vector")


def scalar_stores(v):
    """stores of the constructor to constant offsets of the object, in execution order, outside of loops"""
    this = v.term(v.fn.args[0])
    out = []
    for b in v.rpo:
        if v.loopof.get(b):
            continue
        for i in b.insts:
            if i.op == "store":
                off = (v.addr(i.ops[1], b) - this).const()
                if off is not None and off >= 0:
                    out.append((int(off), v.at(i.ops[0], b)))
    return out


def heap_image(M, ctor):
    """offset -> function of the constructor arguments"""
    from probe import Probe
    p = Probe(M, ctor)
    out = {}
    for off, t in scalar_stores(p.v):
        def f(args, t=t):
            env = {x.atom(): float(y) for x, y in zip(p.a, args) if y is not None}
            return HModel(0, Space(), env).value(t)
        out[off] = f
    return out


# ------------------------------------------------------------------------------------------------- C05
def show_pair(c, u, v):
    return "nodes at positions %d (layer %d) and %d (layer %d)" % (u, c.layer[u], v, c.layer[v])


def consider(S, name, cfg, args, fam, fns, limit):
    """what one call of a sampler function does in one instance: considered pairs, recursive calls, appended entries"""
    v = S.view(name)
    env = bind(v, args)
    env[("tid",)] = 0.0
    data = draws(S, name, cfg)
    it = Interp(v, lambda e: HModel(1, cfg.sp, e, fns, data), limit)
    cons, rec, push = {}, [], []
    for kind, callee, b, i, a in S.effects(name, fam):
        for e, ds in it.points(b, env):
            m = it.model(e)
            if kind == "cb":
                try:
                    u, w = int(m.poly(a[0])), int(m.poly(a[1]))
                except Data:
                    raise Missing("callback argument is not a node index")
                g = bdd.T
                for _, r in ds:
                    g = g & r
                key = (tuple(sorted((str(k), x) for k, x in e.items() if k not in env and x is not Data)), u, w)
                cons.setdefault(key, []).append((g, v.where(i), e))
            elif ds:
                raise Missing("call depends on node data")
            elif kind == "rec":
                rec.append((callee, [value_or(m, x) for x in a], v.where(i)))
            else:
                push.append((callee, [value_or(m, x) for x in a], v.where(i)))
    return cons, rec, push


def value_or(m, t):
    try:
        return m.value(t)
    except (Missing, Data):
        return None


def draws(S, name, cfg=None):
    """value of a random draw: unknown, or the fraction cfg.U of the range of the distribution"""
    from checks.gen import Draws
    D = S.dr.get(name)
    if D is None:
        D = S.dr[name] = Draws(S.view(name))

    def f(m, a):
        if a not in D.draw:
            x = getattr(cfg, "extra", None)
            return x and x(m, a)
        data = getattr(cfg, "data", None)
        ps = D.params(a)
        if data is None or ps is None or ps[0] != "uniform_real_distribution":
            raise Data()
        lo, hi = m.poly(ps[1][0]), m.poly(ps[1][1])
        data.used.append(a)
        return lo + data.U * (hi - lo)
    return f


class Verdict:
    """first counterexample per rule"""

    def __init__(self, rep, conf):
        self.rep, self.conf = rep, conf
        self.bad, self.und, self.n, self.wh = {}, {}, {}, {}

    def ok(self, rule, where):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.wh.setdefault(rule, where)

    def fail(self, rule, where, text):
        self.ok(rule, where)
        self.bad.setdefault(rule, (where, text))

    def unk(self, rule, where, text):
        self.ok(rule, where)
        self.und.setdefault(rule, (where, text))

    def close(self):
        for r, n in self.n.items():
            self.rep.count("instances: " + r, n)
            if r in self.bad:
                self.rep.bad(r, self.bad[r][0], self.bad[r][1], None, self.conf)
            elif r in self.und:
                self.rep.undecided(r, self.und[r][0], self.und[r][1], self.conf)
            else:
                self.rep.ok(r, self.wh[r], "%d instances" % n, self.conf)


R_TOUCH = "touching cells: every pair of nodes whose comparison level is this level is considered exactly once"
R_FAR = "distant cells: every pair of nodes compared at this or a deeper level is considered exactly once, or its block is excluded by the documented cut-off"
R_REC = "the recursion descends to every pair of child cells exactly once iff the cells touch and a deeper level exists"
R_SELF = "no node is paired with itself"
R_SKIP = "skip loop: the running pair index starts at a geometric draw and advances by 1 + a draw of the same distribution, in 64 bits"
R_TID = "callback receives the index of the calling thread"
R_ROOT = "sampling starts with the root cell paired with itself, and the saved calls are all made once"
R_LP = "constructor: every ordered layer pair is filed exactly once, at its comparison level"


def disjoint(gs):
    for i in range(len(gs)):
        for j in range(i):
            if (gs[i] & gs[j]) is not bdd.F:
                return False
    return True


def check_pairs(V, cfg, name, level, A, B, cons, touch, where, excluded):
    """considered pairs against the required ones"""
    byidx = cfg.byidx
    got = {}
    rule = R_TOUCH if touch else R_FAR
    for (key, u, w), sites in cons.items():
        if u == w:
            V.fail(R_SELF, sites[0][1], "%s: node paired with itself for cells %d, %d on level %d" % (name, A, B, level))
            continue
        if not disjoint([s[0] for s in sites]):
            V.unk(rule, sites[0][1], "two callbacks of the same pair are not obviously exclusive")
        if u not in byidx or w not in byidx:
            V.fail(rule, sites[0][1], "callback arguments %d, %d are not indices of nodes" % (u, w))
            continue
        p, q = sorted((byidx[u], byidx[w]))
        got.setdefault((p, q), []).append(sites[0][1])
    V.ok(R_SELF, where)
    want = set()
    pa, pb = cfg.points(A, level), cfg.points(B, level)
    for i, us in pa:
        for j, vs in pb:
            l = cfg.pbl(i, j)
            if l == level if touch else l >= level:
                blk = {(min(x, y), max(x, y)) for x in us for y in vs if x != y}
                if not touch and blk and not any(k in got for k in blk) and excluded(i, j, len(us) * len(vs)):
                    continue
                want |= blk
    txt = "%s on cells %d, %d of level %d (%s, D=%d, %d levels)" % (name, A, B, level, "touching" if touch else "not touching", cfg.D, cfg.levels)
    for k in sorted(want):
        if k not in got:
            return V.fail(rule, where, "%s are never considered by %s" % (show_pair(cfg, *k), txt))
    for k, w in sorted(got.items()):
        if k not in want:
            return V.fail(rule, w[0], "%s are considered by %s although their comparison level or cells differ" % (show_pair(cfg, *k), txt))
        if len(w) > 1:
            return V.fail(rule, w[0], "%s are considered %d times by %s" % (show_pair(cfg, *k), len(w), txt))
    V.ok(rule, where)


def check_children(V, cfg, name, level, A, B, got, touch, where, D):
    K = 1 << D
    ch = lambda c: range(K * c + 1, K * c + K + 1)
    want = set()
    if touch and level + 1 < cfg.levels:
        want = {(min(a, b), max(a, b)) for a in ch(A) for b in ch(B)}
    seen = {}
    for a, b, l, w in got:
        if l != level + 1:
            return V.fail(R_REC, w, "%s descends from level %d to level %s" % (name, level, l))
        k = (min(a, b), max(a, b))
        seen[k] = seen.get(k, 0) + 1
        if k not in want:
            return V.fail(R_REC, w, "%s on cells %d, %d of level %d (%s, %d levels) descends to cells %d, %d" %
                          (name, A, B, level, "touching" if touch else "not touching", cfg.levels, a, b))
    for k in sorted(want):
        if seen.get(k, 0) != 1:
            return V.fail(R_REC, where, "%s on cells %d, %d of level %d descends %d times to cells %d, %d" % (name, A, B, level, seen.get(k, 0), k[0], k[1]))
    V.ok(R_REC, where)


def fn_where(f):
    for i in f.insts():
        w = fview.where(i)
        if "source/" in w:
            return w
    return f.name


def roles(lib):
    """visit: the plain recursion; start: the variant that saves calls for later (recognised by what the root calls)"""
    S = lib.S
    direct = {}
    rv = S.view(lib.root.name)
    for c in rv.calls():
        if c.callee in S.samplers:
            direct.setdefault(c.callee, []).append(c)
    return rv, direct


def lemmas(rep, tmp, fns, pat, *args):
    """obligations of the geometry the argument rests on, restricted to the rules that matter"""
    sub = type(rep)(rep.prop, rep.tier)
    for f in fns:
        f(sub, tmp, *args)
    sub.obs = [o for o in sub.obs if re.search(pat, o["rule"])]
    rep.merge(sub)


def skips(V, S, names, rule):
    """running index of the skip loops"""
    from checks.gen import Draws
    for name in sorted(names):
        v = S.view(name)
        dr = S.dr.setdefault(name, Draws(v))
        for a, (L, init, nxt, i) in v.recur.items():
            d = [x for x in terms.atoms_of(init) | terms.atoms_of(nxt or P(0)) if x in dr.draw] if isinstance(init, terms.Poly) else []
            if not d:
                continue
            ps = {dr.params(x) and (dr.params(x)[0], tuple(dr.params(x)[1])) for x in d}
            where = v.where(i) if isinstance(i, Inst) else fn_where(v.fn)
            d0 = init.atom()
            step = nxt - atom(a)
            st = [x for x in terms.atoms_of(step) if x in dr.draw]
            if None in ps or any(p[0] != "geometric_distribution" for p in ps) or len(st) != 1:
                V.unk(rule, where, "loop advanced by draws: start %s, step %s" % (init, step))
                continue
            tys = [getattr(i, "ty", "i64")] + [dr.draw[x][2].inst.ty for x in d]
            if len(ps) != 1:
                V.fail(rule, where, "the skips are drawn with different parameters")
            elif d0 not in dr.draw or not (step - atom(st[0])).const() == 1:
                V.fail(rule, where, "start %s, step %s; required: a draw, 1 + a draw" % (init, step))
            elif any(t in ("i8", "i16", "i32") for t in tys):
                V.fail(rule, where, "index of the pairs of a block is computed with %s, the number of pairs of a block exceeds it" % ", ".join(tys))
            else:
                V.ok(rule, where)


R_WIDE = "the number of pairs of a block is computed in 64 bits"
R_DROP = "a block of distant cells is skipped only if fewer than 1e-6 edges are expected from it"


def widths(V, S, names):
    """product of the sizes of two cells: loads that depend on the one cell times loads that depend on the other"""
    for n in sorted(names):
        v = S.view(n)
        f = v.fn
        cells = [v.term(a).atom() for a in f.args if a.ty in ("i32", "i64")][:2]
        if len(cells) < 2:
            continue

        def deps(a):
            return terms.atoms_of(("x", a)) & set(cells) if a[0] in ("ld", "call") else ()
        for b in v.rpo:
            for i in b.insts:
                if i.op not in ("mul", "trunc", "shl", "add", "phi") or i.ty not in ("i8", "i16", "i32", "i64"):
                    continue
                try:
                    p = v.num(v.at(i, b))
                except (AnalysisError, KeyError):
                    continue
                if not isinstance(p, terms.Poly):
                    continue
                for m, c in p.t.items():
                    fs = [a for a, e in m if deps(a)]
                    if len(fs) < 2:
                        continue
                    if i.ty != "i64":
                        V.fail(R_WIDE, v.where(i), "the product of two cell sizes is computed in %s bits; cells with 2^16 nodes exceed it" % i.ty[1:])
                    else:
                        V.ok(R_WIDE, v.where(i))
                    break


def dropped(V, cfg, got, level, A, B, excluded, where):
    """pairs of two distant cells of which no decision is ever made"""
    have = set()
    for u, w in got:
        if u in cfg.byidx and w in cfg.byidx:
            p, q = cfg.byidx[u], cfg.byidx[w]
            have.add((min(p, q), max(p, q)))
    for i, us in cfg.points(A, level):
        for j, vs in cfg.points(B, level):
            if not us or not vs or cfg.pbl(i, j) < level:
                continue
            blk = {(min(x, y), max(x, y)) for x in us for y in vs}
            if not blk & have and not excluded(i, j, len(us) * len(vs)):
                return V.fail(R_DROP, where, "no pair of layers %d, %d of cells %d, %d on level %d is ever sampled, %d pairs" % (i, j, A, B, level, len(blk)))
    V.ok(R_DROP, where)


def geo_param(v, dr, b, m):
    """selection probability of the innermost skip loop around a block, None: every pair is selected"""
    for L in reversed(v.loops_of(b)):
        for a, (l, init, nxt, i) in v.recur.items():
            if l is not L or not isinstance(nxt, terms.Poly):
                continue
            for x in terms.atoms_of(nxt):
                if x in dr.draw:
                    ps = dr.params(x)
                    if not ps or ps[0] != "geometric_distribution":
                        raise Missing("distribution of the skips")
                    return m.poly(ps[1][0])
    return None


def run_girg(rep, tmp, conf, defs, D, count):
    conf = "%s, D=%d" % (conf, D)
    lib = GirgLib(tmp, D, defs, rep)
    V = Verdict(rep, conf)
    S = lib.S
    rv, direct = roles(lib)
    if not direct:
        rep.undecided(R_ROOT, fn_where(lib.root), "no sampler call in generateEdges", conf)
        return
    recs = {n for n in S.samplers if n in lib.M.recursive or n in direct}
    rng = random.Random(4711 * D + len(defs))
    for name in sorted(recs):
        f = lib.M.fns[name]
        short = policy.qual(f.dname).split("::")[-1]
        ints = [k for k, a in enumerate(f.args) if a.ty in ("i32", "i64")]
        ptrs = [k for k, a in enumerate(f.args) if a.ty == "ptr"]
        if len(ints) not in (3, 4) or ints[0] != 1:
            rep.undecided(R_REC, fn_where(f), "signature of %s not understood" % short, conf)
            continue
        where = fn_where(f)
        for k in range(count):
            kind = ("same", "touch", "far", "far", "same", "touch", "deep")[k % 7]
            one_girg(V, lib, S, f, short, ints, ptrs, where, rng, kind, recs, D)
    skips(V, S, recs, R_SKIP)
    widths(V, S, recs)
    root_girg(V, lib, rv, direct, rng, D)
    layer_pairs_girg(V, lib, rng, D)
    V.close()


def excl(cfg, level, A, B):
    def f(i, j, num):
        if cfg.alpha == INF:
            return True
        w = cfg.w0 * 2.0 ** (i + 1) * cfg.w0 * 2.0 ** (j + 1) / cfg.W
        p = min((w / cfg.dist(A, B, level) ** cfg.D) ** cfg.alpha, 1.0)
        return num * p < 1e-6
    return f


def one_girg(V, lib, S, f, short, ints, ptrs, where, rng, kind, recs, D):
    cells = None
    for _ in range(60):
        cfg = Girg(lib, rng, "deep" if kind in ("far", "deep") else "any")
        top = cfg.levels - 1
        if kind == "far" and top < 2:
            continue
        level = top if kind == "deep" else rng.randint(0 if kind == "same" else 1 if kind == "touch" else 2, max(top, 0)) if top >= (1 if kind == "touch" else 0) else None
        if level is None:
            continue
        cells = cfg.cells(level, {"deep": rng.choice(("same", "touch"))}.get(kind, kind))
        if cells:
            break
    if not cells:
        return
    A, B = cells
    cfg.fill(level, A, B)
    cfg.memory()
    args = [None] * len(f.args)
    args[0] = cfg.this
    args[ints[0]], args[ints[1]], args[ints[2]] = float(A), float(B), float(level)
    fpl = None
    if len(ints) == 4:
        fpl = level + (1 if rng.random() < 0.6 else rng.randint(2, 3))
        args[ints[3]] = float(fpl)
        pc = cfg.sp.alloc(lambda o: None, "saved calls")
        for k in ptrs:
            if k:
                pcell = geom.first(D, fpl)
                pcn = 1 << (D * fpl)
                args[k] = cfg.sp.alloc({0: pc, 8: pc + 24.0 * pcn, 16: pc + 24.0 * pcn}.get, "saved call table")
    touch = True
    if A != B:
        fl = geom.first(D, level)
        touch = cfg.touching([geom.demorton(A - fl, D, d) for d in range(D)], [geom.demorton(B - fl, D, d) for d in range(D)], level)
    rule = R_TOUCH if touch else R_FAR
    try:
        cons, rec, push = consider(S, f.name, cfg, args, recs, lib.fns(cfg), cfg.maxblock(level, A, B))
    except (Missing, Undef, Data) as e:
        V.unk(rule, where, "%s: %s" % (short, e))
        return
    except OutOfCell as e:
        V.fail(rule, where, "%s on cells %d, %d of level %d: %s" % (short, A, B, level, e))
        return

    check_pairs(V, cfg, short, level, A, B, cons, touch, where, excl(cfg, level, A, B))
    got = []
    for callee, a, w in rec:
        if callee != f.name and touch and fpl is None:
            pass
        x = [a[k] for k in ints]
        if any(y is None for y in x[:3]) or a[0] != cfg.this or len(x) > 3 and (fpl is None or x[3] != fpl):
            V.unk(R_REC, w, "arguments of the recursive call not understood") if None in x[:3] else V.fail(R_REC, w, "recursive call changes the object or the parallel level")
            continue
        if fpl is not None and callee == f.name and x[2] >= fpl:
            V.fail(R_REC, w, "%s recurses beyond the level at which the calls are saved" % short)
            continue
        got.append((int(x[0]), int(x[1]), int(x[2]), w))
    for callee, a, w in push:
        if fpl is None or a[0] is None or a[1] is None:
            continue
        nm, off = cfg.sp.name(a[0])
        if nm != "saved calls":
            continue
        if off % 24 or off // 24 >= pcn:
            V.fail(R_REC, w, "%s saves a call outside of the table (entry %.2f of %d)" % (short, off / 24.0, pcn))
            continue
        if level + 1 != fpl:
            V.fail(R_REC, w, "%s saves calls of level %d in a table for level %d" % (short, level + 1, fpl))
            continue
        got.append((pcell + off // 24, int(a[1]), fpl, w))
    check_children(V, cfg, short, level, A, B, got, touch, where, D)


def root_girg(V, lib, rv, direct, rng, D):
    """generateEdges: root call, saved calls"""
    where = fn_where(lib.root)
    fam = set(direct)
    S = lib.S
    for nt in (1, 2, 3, 4, 5, 8, 9, 16, 33, 64):
        if 4 * nt > 1 << 9:
            continue
        cfg = Girg(lib, rng, "any")
        cfg.fill(0, 0, 0)
        cfg.memory()
        env = {rv.term(rv.fn.args[0]).atom(): cfg.this, rv.term(rv.fn.args[1]).atom(): 5.0, ("maxthreads",): float(nt), ("tid",): 0.0}
        # the table of saved calls: a fresh vector of vectors with the size given to its constructor
        tab = tables(rv)
        m0 = HModel(1, cfg.sp, env, lib.fns(cfg))
        content = {}

        def mk(e):
            return HModel(1, cfg.sp, e, lib.fns(cfg))
        try:
            pc = []
            for obj, size in tab:
                try:
                    n = int(m0.value(size))
                except (Missing, Undef, Data):
                    continue
                img, calls = {}, {}
                for k in range(n):
                    cs = [1000 * k + x for x in range(k % 3)]
                    r = cfg.sp.alloc({4 * q: float(c) for q, c in enumerate(cs)}.get, "saved") if k < 400 else 64.0
                    img[24 * k], img[24 * k + 8], img[24 * k + 16] = r, r + 4 * len(cs if k < 400 else []), r
                    calls[k] = cs if k < 400 else []
                r = cfg.sp.alloc(img.get, "saved call table body")
                obja = cfg.sp.alloc({0: r, 8: r + 24.0 * n, 16: r + 24.0 * n}.get, "saved call table")
                env[obj] = obja
                pc.append((obja, n, calls))
            it = Interp(rv, mk)
            it.maxiter = 100000
            calls = []
            for kind, callee, b, i, a in S.effects(lib.root.name, fam):
                if kind != "rec":
                    continue
                for e, ds in it.points(b, env):
                    if ds:
                        raise Missing("root call depends on data")
                    m = it.model(e)
                    calls.append((callee, [value_or(m, x) for x in a], rv.where(i), e))
        except (Missing, Undef, Data) as e:
            V.unk(R_ROOT, where, "%d threads: %s" % (nt, e))
            continue
        starts = [c for c in calls if [x for x in c[1][1:4]] == [0.0, 0.0, 0.0]]
        rest = [c for c in calls if c not in starts]
        if len(starts) != 1:
            V.fail(R_ROOT, starts[1][2] if starts else where, "%d threads: the root cell is visited %d times" % (nt, len(starts)))
            continue
        s = starts[0]
        ints = [k for k, a in enumerate(lib.M.fns[s[0]].args) if a.ty in ("i32", "i64")]
        if any(c[1][0] != cfg.this for c in calls):
            V.unk(R_ROOT, where, "object of the calls")
            continue
        if len(ints) == 3:
            if rest:
                V.fail(R_ROOT, rest[0][2], "%d threads: further calls beside the complete recursion" % nt)
            else:
                V.ok(R_ROOT, where)
            continue
        fpl = s[1][ints[3]]
        used = [p for p in pc if p[0] in s[1]]
        if len(used) != 1 or fpl is None or fpl != int(fpl):
            V.unk(R_ROOT, s[2], "table of saved calls not found")
            continue
        fpl = int(fpl)
        if fpl < 1:
            V.fail(R_ROOT, s[2], "%d threads: calls are saved on level %d, which the recursion never reaches" % (nt, fpl))
            continue
        obja, n, content = used[0]
        if n < 1 << (D * fpl):
            V.fail(R_ROOT, s[2], "%d threads: table of %d entries for %d cells" % (nt, n, 1 << (D * fpl)))
            continue
        want = sorted((geom.first(D, fpl) + k, x, fpl) for k, xs in content.items() for x in xs)
        if any(None in c[1][:4] for c in rest):
            V.unk(R_ROOT, where, "arguments of the saved calls")
            continue
        plain = [c for c in rest if len(c[1]) == 4]
        got = sorted((int(c[1][1]), int(c[1][2]), int(c[1][3])) for c in plain)
        if len(plain) != len(rest) or got != want:
            miss = [x for x in want if x not in got][:2]
            V.fail(R_ROOT, rest[0][2] if rest else where, "%d threads: saved calls and made calls differ: not made %s, %d made, %d saved" % (nt, miss, len(got), len(want)))
        else:
            V.ok(R_ROOT, rest[0][2] if rest else where)


def tables(v):
    """vectors constructed in the function: [(object atom, size term)]"""
    out = []
    for c in v.calls():
        if c.q == "std::vector::vector" and len(c.inst.ops) >= 2:
            a = [v.num(v.at(o, c.inst.bb)) for o in c.inst.ops]
            if a[0].atom() and c.inst.ops[1].ty == "i64":
                out.append((a[0].atom(), a[1]))
    return out


def layer_pairs_girg(V, lib, rng, D):
    v = lib.cv
    where = fn_where(lib.ctor)
    pairs = lib.vec["pairs"]
    if pairs is None:
        V.unk(R_LP, where, "table of layer pairs not found")
        return
    sites = []
    for b in v.rpo:
        for i in b.insts:
            if i.op == "call" and getattr(i.x, "kind", "") == "fn" and PUSHQ.match(policy.qual(ir.demangle(i.x.v))) and len(i.ops) in (2, 3):
                sites.append((b, i, [v.num(v.at(i.ops[0], b))] + [pushed(v, i, o) for o in i.ops[1:]]))
    res = [(c, [v.num(v.at(o, c.inst.bb)) for o in c.inst.ops]) for c in v.calls() if c.q == "std::vector::resize"]
    for k in range(24):
        cfg = Girg(lib, rng, "any")
        cfg.fill(0, 0, 0)
        cfg.memory()
        vec = cfg_vec(cfg.sp, cfg.n)
        env = bind(v, [cfg.this, vec, vec, cfg.alpha, 0.0, 0.0])
        env[("tid",)] = 0.0
        it = Interp(v, lambda e: HModel(1, cfg.sp, e, lib.fns(cfg)))
        seen = {}
        try:
            hit = False
            sz = None
            for c, ar in res:
                if (ar[0] - v.term(v.fn.args[0])).const() == pairs:
                    sz = it.model(env).value(ar[1])
            for b, i, ar in sites:
                pts = None
                try:
                    pts = it.points(b, env)
                except (Missing, Undef, Data):
                    if mentions_pairs(ar[0], v, pairs):
                        raise
                    continue
                for e, ds in pts:
                    m = it.model(e)
                    try:
                        nm, off = cfg.sp.name(m.value(ar[0]))
                    except (Missing, Undef, Data):
                        continue
                    if nm != "layer pair table":
                        continue
                    hit = True
                    if len(ar) != 3:
                        raise Missing("entry of the layer pair table")
                    l, x, y = off / 24.0, int(m.value(ar[1])), int(m.value(ar[2]))
                    seen.setdefault((x, y), []).append((l, v.where(i)))
            if not hit:
                raise Missing("nothing is filed")
        except (Missing, Undef, Data, OutOfCell) as e:
            V.unk(R_LP, where, str(e))
            continue
        bad = None
        for x in range(cfg.K):
            for y in range(cfg.K):
                s = seen.pop((x, y), [])
                if len(s) != 1 or s[0][0] != cfg.pbl(x, y):
                    bad = bad or "layers %d, %d (of %d, base level %d) are filed at level(s) %s, required %d" % (x, y, cfg.K, cfg.B, [q[0] for q in s], cfg.pbl(x, y))
        if seen:
            bad = bad or "layers %s do not exist" % (next(iter(seen)),)
        if sz is not None and sz < cfg.levels:
            bad = bad or "table has %d levels, %d are needed" % (sz, cfg.levels)
        if bad:
            V.fail(R_LP, where, bad)
        else:
            V.ok(R_LP, where)


def mentions_pairs(t, v, off):
    return any(a[0] == "ld" and (a[1] - v.term(v.fn.args[0])).const() == off for a in terms.atoms_of(t))


def c05(rep, tmp, conf, defs, D):
    run_girg(rep, tmp, conf, defs, D, 210 if rep.tier == "thorough" else 56)
    lemmas(rep, tmp, [geom.c09_girg, geom.c12_girg], "touch|cell of a point|has 2|starts at|child of|covers|index within", conf, defs, D)


# ------------------------------------------------------------------------------------------------- C07
R_THR = "infinite alpha: a considered pair is reported exactly if w_u w_v / W exceeds dist^D"
R_PROB = "finite alpha: a considered pair is reported with probability min(1, (w_u w_v / W / dist^D)^alpha)"
R_FRESH = "the decision uses a draw made for this pair alone"
R_SUM = "W is the sum of all weights"


class NodeData:
    """weights and coordinates of the nodes of one instance: every node lies in its cell and layer"""

    def __init__(self, cfg, rng):
        self.cfg, self.U, self.used = cfg, 0.5, []
        D, L = cfg.D, cfg.lib
        self.w, self.x = {}, {}
        for p in cfg.layer:
            i = cfg.layer[p]
            c = cfg.cell[p]
            self.w[p] = min(cfg.w0 * 2.0 ** i * rng.uniform(1.0, 1.999), cfg.wn)
            m = 1 << cfg.T[i]
            self.x[p] = [(geom.demorton(c, D, d) + rng.uniform(0.001, 0.999)) / m for d in range(D)]

    def field(self, p, f):
        L = self.cfg.lib
        if p not in self.w:
            return None
        if f == L.off_weight:
            return self.w[p]
        d = (f - L.off_coord) / 8
        if d == int(d) and 0 <= d < self.cfg.D:
            return self.x[p][int(d)]
        return None

    def distance(self, p, q):
        if p not in self.x or q not in self.x:
            raise Missing("node outside of the instance")
        return max(min(abs(a - b), 1 - abs(a - b)) for a, b in zip(self.x[p], self.x[q]))

    def prob(self, p, q):
        c = self.cfg
        return self.w[p] * self.w[q] / c.W / self.distance(p, q) ** c.D


def decisions(S, name, cfg, args, fns, limit):
    """[(u, w, accepted, selection probability, where, draws, block)] of one call"""
    v = S.view(name)
    env = bind(v, args)
    env[("tid",)] = 0.0
    data = draws(S, name, cfg)
    it = Interp(v, lambda e: HModel(1, cfg.sp, e, fns, data), limit)
    out = []
    cfg.data.used = []
    saved = it.model
    for kind, callee, b, i, a in S.effects(name, ()):
        if kind != "cb":
            continue
        # domain without the acceptance decision: node data and draws stay symbolic
        keep, cfg.data = cfg.data, None
        pts = it.points(b, env)
        cfg.data = keep
        for e, ds in pts:
            m = it.model(e)
            u, w = int(m.poly(a[0])), int(m.poly(a[1]))
            cfg.data.used = []
            acc = True
            for mm, r in ds:
                m2 = it.model(mm.env)
                acc = acc and m2.bdd(r)
            sel = geo_param(v, S.dr[name], b, m)
            out.append((u, w, acc, sel, v.where(i), list(cfg.data.used), b, a[2]))
    return merged(out)


def merged(res):
    """one entry per pair: several callback sites may share the decision"""
    by = {}
    for x in res:
        k = (x[0], x[1], x[3])
        o = by.get(k)
        if o is None or x[2] and not o[2]:
            by[k] = x
        if o is not None:
            by[k] = by[k][:5] + (list(dict.fromkeys(o[5] + x[5])),) + by[k][6:]
    return list(by.values())


def c07(rep, tmp, conf, defs, D):
    confd = "%s, D=%d" % (conf, D)
    lib = GirgLib(tmp, D, defs, rep)
    V = Verdict(rep, confd)
    S = lib.S
    for c in calls_of(lib.cv, "std::accumulate"):
        if c.inst.ty != "double":
            V.fail(R_SUM, lib.cv.where(c.inst), "the weights are added up in type %s" % c.inst.ty)
        else:
            V.ok(R_SUM, lib.cv.where(c.inst))
    rv, direct = roles(lib)
    recs = {n for n in S.samplers if n in lib.M.recursive or n in direct}
    skips(V, S, recs, R_SKIP)
    widths(V, S, recs)
    rng = random.Random(815 * D + len(defs))
    for name in sorted(recs):
        f = lib.M.fns[name]
        short = policy.qual(f.dname).split("::")[-1]
        ints = [k for k, a in enumerate(f.args) if a.ty in ("i32", "i64")]
        where = fn_where(f)
        if len(ints) not in (3, 4) or ints[0] != 1:
            rep.undecided(R_PROB, where, "signature of %s not understood" % short, confd)
            continue
        for k in range(120 if rep.tier == "thorough" else 40):
            inst = instance(lib, rng, ("same", "touch", "far", "far", "deep", "far")[k % 6])
            if inst:
                decide_girg(V, lib, S, f, short, ints, where, rng, inst)
    lemmas(rep, tmp, [geom.c09_girg], "distance|touch|pow_to", conf, defs, D)
    V.close()


def calls_of(v, q):
    return [c for c in v.calls() if c.q == q]


def instance(lib, rng, kind):
    for _ in range(60):
        cfg = Girg(lib, rng, "deep" if kind in ("far", "deep") else "any")
        top = cfg.levels - 1
        lo = {"same": 0, "touch": 1, "far": 2}.get(kind, top)
        if top < lo:
            continue
        level = rng.randint(lo, top)
        cells = cfg.cells(level, rng.choice(("same", "touch")) if kind == "deep" else kind)
        if cells:
            cfg.fill(level, *cells)
            cfg.memory()
            return cfg, level, cells[0], cells[1]
    return None


def decide_girg(V, lib, S, f, short, ints, where, rng, inst):
    cfg, level, A, B = inst
    D = cfg.D
    fl = geom.first(D, level)
    touch = A == B or cfg.touching([geom.demorton(A - fl, D, d) for d in range(D)], [geom.demorton(B - fl, D, d) for d in range(D)], level)
    args = [None] * len(f.args)
    args[0] = cfg.this
    args[ints[0]], args[ints[1]], args[ints[2]] = float(A), float(B), float(level)
    if len(ints) == 4:
        args[ints[3]] = float(level + 2)
    fns = lib.fns(cfg)
    inf = cfg.alpha == INF
    rule = R_THR if inf else R_PROB
    byidx = cfg.byidx
    v = S.view(f.name)

    def run(U):
        data.U = U
        return decisions(S, f.name, cfg, args, fns, cfg.maxblock(level, A, B))
    cfg.data = None
    try:
        data = NodeData(cfg, rng)
        cfg.data = data
        try:
            first = run(0.5)
        except Undef:
            return
        if not touch:
            dropped(V, cfg, [x[:2] for x in first], level, A, B, excl(cfg, level, A, B), where)
        if not first:
            return
        pick = [first[rng.randrange(len(first))] for _ in range(3)]
        us = [(0.5, None)]
        for u, w, acc, sel, wh, used, b, tid in pick:
            p, q = byidx.get(u), byidx.get(w)
            if p is None or q is None or p == q:
                continue
            # weights near the decision
            base = cfg.w0 ** 2 * 2.0 ** (cfg.layer[p] + cfg.layer[q])
            want = data.distance(p, q) ** D * cfg.W
            if base * 1.02 < want < base * 3.9 and rng.random() < 0.7:
                x = math.sqrt(want / base * (rng.choice((0.97, 1.03)) if inf else rng.uniform(0.3, 1.1)))
                if 1.0 <= x < 2.0:
                    data.w[p], data.w[q] = cfg.w0 * 2.0 ** cfg.layer[p] * x, cfg.w0 * 2.0 ** cfg.layer[q] * x
            pr = min(1.0, data.prob(p, q) ** cfg.alpha) if not inf else 0.5
            t = pr / (sel if sel else 1.0)
            us += [(t * 0.97, None), (t * 1.03, None), (0.999, None), (rng.random(), None)]
        for U, _ in us:
            if not 0 <= U < 1:
                continue
            try:
                res = run(U)
            except Undef:                                  # a comparison of equal values: no statement
                continue
            for u, w, acc, sel, wh, used, b, tid in res:
                p, q = byidx.get(u), byidx.get(w)
                if p is None or q is None or p == q:
                    continue
                txt = "weights %.4g, %.4g, W %.4g, distance %.4g, alpha %.3g, D=%d" % (data.w[p], data.w[q], cfg.W, data.distance(p, q), cfg.alpha, D)
                x = data.prob(p, q)
                if inf:
                    if abs(x - 1) > 1e-6 and acc != (x > 1):
                        return V.fail(rule, wh, "pair is %s: %s" % ("reported" if acc else "not reported", txt))
                    continue
                pr = min(1.0, x ** cfg.alpha)
                s = 1.0 if sel is None else sel
                if s < pr * (1 - 1e-7):
                    return V.fail(rule, wh, "pair is selected with probability %.4g only, required %.4g: %s" % (s, pr, txt))
                t = pr / s
                if abs(U - t) > 1e-7 and acc != (U < t):
                    return V.fail(rule, wh, "selected with probability %.4g and then %s for a draw at %.4g of its range, required probability %.4g: %s" %
                                  (s, "accepted" if acc else "rejected", U, pr, txt))
                for d in used:
                    db = S.dr[f.name].draw[d][2].inst.bb
                    if v.loops_of(db)[-1:] != v.loops_of(b)[-1:]:
                        return V.fail(R_FRESH, v.where(S.dr[f.name].draw[d][2].inst), "one draw decides about several pairs")
                    V.ok(R_FRESH, wh)
        V.ok(rule, where)
    except (Missing, Undef, Data) as e:
        V.unk(rule, where, "%s: %s" % (short, e))
    except OutOfCell as e:
        V.fail(rule, where, "%s on cells %d, %d of level %d: %s" % (short, A, B, level, e))
    finally:
        cfg.data = None
