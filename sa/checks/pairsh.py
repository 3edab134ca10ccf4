"""Coverage and acceptance of hyperbolic pairs (C06, C08)."""
import math
import random
import re
import bdd
import fview
import heap
import ir
import layout
import policy
import terms
import units
from heap import Data, Missing, HModel, Interp
from ir import AnalysisError, Inst
from rnd import Undef
from terms import P, atom
from checks import geom, hyper, pairs
from checks.pairs import (OutOfCell, dropped, widths, Sites, Verdict, bind, cfg_vec, check_children, check_pairs, consider, decisions, fn_where, heap_image, lemmas, mentions_pairs, pushed,
                          scalar_stores, skips, value_or, PUSHQ, R_FAR, R_FRESH, R_LP, R_REC, R_ROOT, R_SKIP, R_TOUCH)

PURE = ("AngleHelper::touching", "AngleHelper::dist", "AngleHelper::cellsBetween", "RadiusLayer::partitioningBaseLevel", "hypergirgs::hyperbolicDistance",
        "coshDistForProb_upperBound", "coshDistForProb_lowerBound")
OPAQUE = ("RadiusLayer::buildPartition", "DistanceFilter::DistanceFilter", "::initialize_prngs", "HyperbolicTree::HyperbolicTree", "HyperbolicTree::generate")
H = "hypergirgs::"
PI = math.pi


def hdist(r1, r2, a):
    return math.acosh(max(1.0, math.cosh(r1 - r2) + (1 - math.cos(a)) * math.sinh(r1) * math.sinh(r2)))


class Hrg(pairs.Girg):
    """one random instance of the hyperbolic data structure (angles: 1-dimensional cells)"""

    def __init__(self, lib, rng, kind, rmax=38.0):
        self.lib, self.rng, self.D = lib, rng, 1
        self.R = rng.uniform(6.0, rmax) if kind == "deep" else rng.choice((rng.uniform(1.2, rmax), rng.uniform(1.2, 10.0)))
        self.K = rng.randint(1, min(4, int(self.R))) if rng.random() < 0.8 else rng.randint(1, min(12, int(self.R)))
        if rng.random() < 0.15:
            self.K = min(int(math.ceil(self.R)), 14)
        self.Tp = 0.0 if rng.random() < 0.25 else rng.choice((1e-3, 0.02)) * rng.uniform(1, 3) if rng.random() < 0.2 else rng.uniform(0.05, 0.95)
        if self.Tp and self.R < 14 and rng.random() < 0.15:
            self.Tp = 10 ** -rng.uniform(3.0, 4.5)             # close to the threshold model
        self.tab = {}
        self.T = [self.pbl(i, 0) for i in range(self.K)]
        self.levels = self.T[0] + 1
        self.slack = rng.choice(((1.0, 1.0), (1.02, 0.98), (1.2, 0.8), (INFTY, 0.0)))

    def rmin(self, i):
        return self.R - i - 1

    def pbl(self, i, j):
        r = self.tab.get((i, j))
        if r is None:
            r = 0
            while hdist(self.rmin(i), self.rmin(j), PI / 2 ** r) > self.R:
                r += 1
            self.tab[i, j] = r
        return r

    def between(self, A, B, l):
        d = abs(A - B)
        d = min(d, (1 << l) - d)
        return max(d - 1, 0)

    def dist(self, A, B, l):
        return self.between(A, B, l) * 2 * PI / (1 << l)

    def cprob(self, d):
        x = (d - self.R) / (2 * self.Tp)
        return 1 / (1 + math.exp(x)) if x < 700 else 0.0

    def fprob(self, i, j, l, gap):
        """largest connection probability of the layers i, j in cells of level l with a gap of so many cells"""
        return self.cprob(hdist(self.rmin(i), self.rmin(j), gap * 2 * PI / (1 << l)))

    def memory(self, data=None):
        L, sp = self.lib, heap.Space()
        self.sp, self.data = sp, data
        nodes = self.nodes = sp.alloc(self.read_node, "nodes")
        pre = sp.alloc(self.read_prefix, "cell index")
        start = [0]
        for i in range(self.K):
            start.append(start[-1] + (1 << self.T[i]))
        lay = {}
        for i in range(self.K):
            for o, x in L.rlayer_image(self.rmin(i), self.rmin(i) + 1, self.T[i], nodes, pre + 4 * start[i]).items():
                lay[i * L.layer_size + o] = x
        layers = sp.alloc(lay.get, "layers")
        lp = {}
        for l in range(self.levels):
            prs = [(i, j) for i in range(self.K) for j in range(self.K) if self.pbl(i, j) == l]
            img = {}
            for k, (i, j) in enumerate(prs):
                img[8 * k], img[8 * k + 4] = float(i), float(j)
            r = sp.alloc(img.get, "layer pairs")
            lp[24 * l], lp[24 * l + 8], lp[24 * l + 16] = r, r + 8 * len(prs), r + 8 * len(prs)
        ptab = sp.alloc(lp.get, "layer pair table")
        FS = L.filter_size
        ft = {}
        self.filters = {}
        for i in range(self.K):
            for j in range(self.K):
                n = max(self.pbl(i, j) - 1, 0) if self.Tp else 0
                r = sp.alloc(self.filter_reader(i, j, n), "filters")
                self.filters[r] = (i, j)
                k = 24 * (i * self.K + j)
                ft[k], ft[k + 8], ft[k + 16] = r, r + 2.0 * FS * n, r + 2.0 * FS * n
        if not self.Tp:
            ft = {}
        ftab = sp.alloc(ft.get, "filter table")
        tree = {}
        for k, (b, e) in {"nodes": (nodes, nodes + L.node_size * self.n), "index": (pre, pre + 4.0 * (start[-1] + 1)),
                          "layers": (layers, layers + L.layer_size * self.K), "pairs": (ptab, ptab + 24 * self.levels),
                          "filters": (ftab, ftab + 24.0 * (self.K ** 2 if self.Tp else 0))}.items():
            o = L.vec.get(k)
            if o is not None:
                tree[o], tree[o + 8], tree[o + 16] = b, e, e
        img = L.filter_image(1.0, self.R, self.Tp)
        for o, x in img.items():
            tree[L.off_filter1 + o] = x
        self.this = sp.alloc(tree.get, "tree")
        self.tree = tree
        L.ctor_image(self, tree)
        return sp

    def filter_reader(self, i, j, n):
        FS = self.lib.filter_size

        def read(o):
            e, f = divmod(o, 2 * FS)
            if e >= n:
                raise OutOfCell("filter %d of %d for layers %d, %d" % (e, n, i, j))
            return self.lib.filter_image(self.fprob(i, j, e + 2, 1 + (f >= FS)), self.R, self.Tp).get(f % FS)
        return read

    def filter_max(self, addr):
        """largest probability a filter object is made for"""
        if addr == self.this + self.lib.off_filter1:
            return 1.0
        nm, o = self.sp.name(addr)
        FS = self.lib.filter_size
        if nm != "filters" or o % FS:
            raise Missing("filter object")
        i, j = self.filters[addr - o]
        if o // (2 * FS) >= max(self.pbl(i, j) - 1, 0):
            raise OutOfCell("filter of level %d for layers %d, %d" % (o // (2 * FS) + 2, i, j))
        return self.fprob(i, j, o // (2 * FS) + 2, 1 + o // FS % 2)


INFTY = 1e260


class HrgLib:
    D = 1

    def __init__(self, tmp, defs, rep):
        fview.FView.PUREX = PURE
        self.M = M = units.build(tmp, "t", [units.HARN + "/hrg_tree.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp", units.SRC + "/hypergirgs/source/RadiusLayer.cpp"],
                                 defs, [], units.keep(*PURE, *OPAQUE))
        fview.FView.PUREX = ()
        R = layout.records(units.HARN + "/hrg_tree.cpp", defs)
        name = next((k for k in R if re.search(r"^hypergirgs::DistanceFilter<", layout.norm(k))), None)
        if not name:
            raise AnalysisError("hypergirgs::DistanceFilter not found")
        self.MP = MP = units.build(tmp, "tp", [units.HARN + "/hrg_image.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp", units.SRC + "/hypergirgs/source/RadiusLayer.cpp"],
                                   ["VH_FILTER=" + layout.norm(name)] + list(defs), [], units.keep("RadiusLayer::buildPartition"))
        rep.unit("hypergirgs/HyperbolicTree with RadiusLayer, Point, DistanceFilter [%s]" % (" ".join(defs) or "debug"))
        t = self.tree = layout.find(R, r"^hypergirgs::HyperbolicTree<")
        mem = lambda p: layout.member(t, p)
        self.vec = {"nodes": mem(r"^(const )?std::vector<hypergirgs::Point"), "index": mem(r"^(const )?std::vector<unsigned int>"),
                    "layers": mem(r"^(const )?std::vector<hypergirgs::RadiusLayer"), "filters": mem(r"^(const )?std::vector<std::vector<std::pair<hypergirgs::Dist"),
                    "pairs": mem(r"^(const )?std::vector<std::vector<std::pair<unsigned int, unsigned int>")}
        self.off_filter1 = mem(r"^(const )?hypergirgs::DistanceFilter<")
        self.node_size = layout.find(R, r"^hypergirgs::Point$")[0]
        self.layer_size = layout.find(R, r"^hypergirgs::RadiusLayer$")[0]
        self.filter_size = layout.find(R, r"^hypergirgs::DistanceFilter<")[0]
        self.img = {k: heap_image(MP, "vh_%s_image" % k) for k in ("layer", "point", "filter")}
        self.off_index = next(o for o in self.img["point"] if o % 4 == 0 and self.point_image(7, 2.0, 1.0, 3).get(o) == 7.0)
        find = lambda s: [f for f in M.fns.values() if not f.decl and policy.qual(f.dname).endswith(s)]
        root, ctor = [f for f in find("HyperbolicTree::generate") if "hypergirgs" in f.dname], find("HyperbolicTree::HyperbolicTree")
        if not root or not ctor:
            raise AnalysisError("generate / constructor of HyperbolicTree not found")
        size = lambda f: len(list(f.insts()))
        self.root, self.ctor = max(root, key=size), max(ctor, key=size)
        fview.FView.PUREX = PURE
        self.cv = fview.FView(self.ctor)
        self.ctor_st = scalar_stores(self.cv)
        self.S = Sites(M, self.root.name)
        self.cache = {}

    def image(self, kind, args):
        out = {}
        for o, f in self.img[kind].items():
            try:
                out[o] = f(args)
            except (Missing, Undef, Data):
                pass
        return out

    def rlayer_image(self, *a):
        return self.image("layer", [None, *map(float, a)])

    def point_image(self, *a):
        return self.image("point", [None, *map(float, a)])

    def filter_image(self, *a):
        r = self.cache.get(a)
        if r is None:
            if len(self.cache) > 5000:
                self.cache.clear()
            r = self.cache[a] = self.image("filter", [None, *map(float, a)])
        return r

    def fns(self, cfg):
        A = H + "AngleHelper::"

        def cells(m, a):
            l = int(m.poly(a[3]))
            x, y = int(m.poly(a[1])), int(m.poly(a[2]))
            f = geom.first(1, l)
            if not (0 <= l and f <= x <= 2 * f and f <= y <= 2 * f):
                raise OutOfCell("cells %d, %d are not on level %d" % (x, y, l))
            return x, y, l, f

        def touching(m, a):
            x, y, l, f = cells(m, a)
            return float(cfg.touching([x - f], [y - f], l))

        def hd(m, a):
            r1, p1, r2, p2 = [m.poly(x) for x in a[1:5]]
            return hdist(r1, r2, p1 - p2)

        def pbl(m, a):
            r1, r2, R = [m.poly(x) for x in a[1:4]]
            if R != cfg.R:
                raise Missing("radius of the disc")
            i, j = cfg.R - r1 - 1, cfg.R - r2 - 1
            if abs(i - round(i)) > 1e-6 or abs(j - round(j)) > 1e-6:
                r = 0
                while hdist(r1, r2, PI / 2 ** r) > R:
                    r += 1
                return float(r)
            return float(cfg.pbl(int(round(i)), int(round(j))))

        def bound(up):
            def f(m, a):
                mx = cfg.filter_max(m.poly(a[1]))
                p = m.poly(a[2])
                if p >= mx:
                    raise OutOfCell("filter for probabilities below %.4g is asked for %.4g" % (mx, p))
                x = cfg.R + 2 * cfg.Tp * math.log(1 / p - 1) if p > 0 else None
                c = INFTY if x is None or x > 590 else math.cosh(max(x, 0.0))
                s = cfg.slack[0 if up else 1]
                return max(1.0, c * s) if not up else min(c * s, INFTY)
            return f
        return {A + "touching": touching, A + "dist": lambda m, a: cfg.dist(*cells(m, a)[:3]), A + "cellsBetween": lambda m, a: float(cfg.between(*cells(m, a)[:3])),
                H + "hyperbolicDistance": hd, H + "RadiusLayer::partitioningBaseLevel": pbl,
                H + "DistanceFilter::coshDistForProb_upperBound": bound(True), H + "DistanceFilter::coshDistForProb_lowerBound": bound(False)}

    def ctor_env(self, cfg):
        v = cfg_vec(cfg.sp, cfg.n)
        cb = cfg.sp.alloc(lambda o: None, "callback")
        return bind(self.cv, [cfg.this, v, v, cfg.Tp, cfg.R, cb, 0.0])

    def ctor_image(self, cfg, tree):
        m = HModel(0, cfg.sp, self.ctor_env(cfg), self.fns(cfg))
        for off, t in self.ctor_st:
            try:
                tree[off] = m.value(t)
            except (Data, Missing, Undef, OutOfCell):
                pass


def instance(lib, rng, kind, rmax=38.0, cls=Hrg):
    for _ in range(60):
        cfg = cls(lib, rng, "deep" if kind in ("far", "deep") else "any", rmax)
        top = cfg.levels - 1
        lo = {"same": 0, "touch": 1, "far": 2}.get(kind, top)
        if top < lo:
            continue
        level = rng.randint(lo, top)
        cells = cfg.cells(level, rng.choice(("same", "touch")) if kind == "deep" else kind)
        if cells:
            A, B = cells if rng.random() < 0.5 else cells[::-1]
            cfg.fill(level, A, B)
            cfg.memory()
            touch = cfg.touching([A - geom.first(1, level)], [B - geom.first(1, level)], level)
            return cfg, level, A, B, touch
    return None


R_SHARE = "shares: of the shares 0..m-1 of a common part exactly one considers each block, and the running share returned is again a permutation"
R_TASK = "task list: the children of touching cells are saved exactly once each, on the first parallel level"
R_GEN = "parallel phase: every call gets a generator of its own out of the array"
CTOR = re.compile(r"std::(__)?atomic(_base)?::(~?__?)?(atomic|__atomic_base|operator=|store)$")
R_PBL = "comparison level of two layers: the deepest level whose cells are wider than the angle at which their inner radii reach distance R"
R_FILT = "constructor: filter of every layer pair and level from 2 on is made for at least the connection probability at one and two cells of gap"
R_THR = "temperature 0: a considered pair is reported exactly if its distance is smaller than R"
R_PROB = "positive temperature: a considered pair is reported with probability 1/(1+exp((dist-R)/(2T)))"


def ints_of(f):
    return [k for k, a in enumerate(f.args) if a.ty in ("i32", "i64")]


def creators(S):
    """functions below the root that append calls to a list and lead to no callback"""
    out = set()
    for n in S.reach - S.samplers:
        f = S.M.fns[n]
        if f.decl or not (n in S.M.recursive) or len(ints_of(f)) != 4:
            continue
        v = S.view(n)
        if any(c.q and PUSHQ.match(c.q) for c in v.calls()):
            out.add(n)
    return out


def excl(cfg, level, A, B):
    def f(i, j, num):
        if not cfg.Tp:
            return True
        return num * cfg.cprob(hdist(cfg.rmin(i), cfg.rmin(j), cfg.dist(A, B, level))) < 1e-6
    return f


def one(V, lib, f, ints, rng, kind, recs):
    S = lib.S
    short = policy.qual(f.dname).split("::")[-1]
    where = fn_where(f)
    inst = instance(lib, rng, kind)
    if not inst:
        return
    cfg, level, A, B, touch = inst
    args = [None] * len(f.args)
    args[0] = cfg.this
    args[ints[0]], args[ints[1]], args[ints[2]] = float(A), float(B), float(level)
    fpl = m = None
    if len(ints) == 6:
        fpl = level + (1 if rng.random() < 0.5 else rng.randint(2, 3))
        m = rng.choice((1, 2, 3, 4, 5, 7))
        args[ints[3]], args[ints[4]] = float(fpl), float(m)
    rule = R_TOUCH if touch else R_FAR
    fns = lib.fns(cfg)
    v = S.view(f.name)
    recat = {}
    if m:
        for k, (kd, callee, b, i, a) in enumerate(S.effects(f.name, recs)):
            if kd == "rec" and callee == f.name and i.ty != "void":
                t = v.term(i)
                if isinstance(t, terms.Poly) and t.atom():
                    recat[t.atom()] = (k, a[ints[5]])

    def extra(mm, a):
        if a in recat:
            return float((mm.poly(recat[a][1]) + 1 + recat[a][0]) % m)
        return None
    cfg.extra = extra
    cons, recsets, shifts, rets = {}, [], {}, []
    limit = cfg.maxblock(level, A, B)
    try:
        for s in range(m or 1):
            if m:
                args[ints[5]] = float(s)
            c, rec, _ = consider(S, f.name, cfg, args, recs, fns, limit)
            for (key, u, w), sites in c.items():
                cons.setdefault(((key, s), u, w), []).extend(sites)
            got = []
            for callee, a, w in rec:
                x = [a[k] for k in ints]
                if callee != f.name or None in x[:3]:
                    raise Missing("recursive call")
                if a[0] != cfg.this or m and (x[3] != fpl or x[4] != m):
                    return V.fail(R_REC, w, "recursive call of %s changes the object, the parallel level or the number of shares" % short)
                got.append((int(x[0]), int(x[1]), int(x[2]), w))
                if m:
                    if x[5] is None:
                        raise Missing("running share")
                    shifts.setdefault(got[-1][:3], []).append((x[5], w))
            recsets.append(got)
            if m:
                r = [b for b in v.rpo if b.insts and b.insts[-1].op == "ret"]
                env = bind(v, args)
                env[("tid",)] = 0.0
                it = Interp(v, lambda e: HModel(1, cfg.sp, e, fns, extra), limit)
                vals = []
                for b in r:
                    for e, ds in it.points(b, env):
                        vals.append(it.model(e).value(v.at(b.insts[-1].ops[0], b)))
                rets += vals
    except (Missing, Undef, Data) as e:
        return V.unk(rule, where, "%s: %s" % (short, e))
    except OutOfCell as e:
        return V.fail(rule, where, "%s on cells %d, %d of level %d: %s" % (short, A, B, level, e))
    finally:
        cfg.extra = None
    check_pairs(V, cfg, short, level, A, B, cons, touch, where, excl(cfg, level, A, B))
    stop = fpl is not None and level + 1 >= fpl
    if stop:
        for g in recsets:
            if g:
                return V.fail(R_REC, g[0][3], "%s with first parallel level %d descends to level %d, which the saved calls cover" % (short, fpl, level + 1))
    else:
        for g in recsets:
            check_children(V, cfg, short, level, A, B, g, touch, where, 1)
    if m:
        txt = "%s on cells %d, %d of level %d with %d shares" % (short, A, B, level, m)
        full = list(range(m))
        if sorted(rets) != full:
            return V.fail(R_SHARE, where, "%s: shares %s are returned as %s" % (txt, full, [int(x) for x in rets]))
        for k, xs in shifts.items():
            if sorted(x for x, _ in xs) != full:
                return V.fail(R_SHARE, xs[0][1], "%s: shares %s are passed on as %s" % (txt, full, [int(x) for x, _ in xs]))
        V.ok(R_SHARE, where)


def one_creator(V, lib, f, ints, rng, kind):
    S = lib.S
    short = policy.qual(f.dname).split("::")[-1]
    where = fn_where(f)
    inst = instance(lib, rng, kind)
    if not inst:
        return
    cfg, level, A, B, touch = inst
    args = [None] * len(f.args)
    if f.args[0].ty == "ptr" and ints[0] == 1:
        args[0] = cfg.this
    fpl = level + (1 if rng.random() < 0.5 else rng.randint(2, 3))
    for k, x in zip(ints, (A, B, level, fpl)):
        args[k] = float(x)
    lst = [k for k, a in enumerate(f.args) if a.ty == "ptr" and k > ints[-1]]
    tk = cfg.sp.alloc(lambda o: None, "tasks")
    for k in lst:
        args[k] = tk
    try:
        c, rec, push = consider(S, f.name, cfg, args, {f.name}, lib.fns(cfg), 8)
    except (Missing, Undef, Data) as e:
        return V.unk(R_TASK, where, "%s: %s" % (short, e))
    except OutOfCell as e:
        return V.fail(R_TASK, where, "%s on cells %d, %d of level %d: %s" % (short, A, B, level, e))
    ch = lambda x: (2 * x + 1, 2 * x + 2)
    want = sorted((min(a, b), max(a, b)) for a in ch(A) for b in ch(B)) if touch else []
    if A == B:
        want = sorted(set(want))
    txt = "%s on %s cells %d, %d of level %d, first parallel level %d" % (short, "touching" if touch else "distant", A, B, level, fpl)
    got, saved = [], []
    for callee, a, w in rec:
        x = [a[k] for k in ints]
        if None in x:
            return V.unk(R_TASK, w, "arguments of the recursive call")
        if x[2] != level + 1 or x[3] != fpl or any(a[k] != tk for k in lst):
            return V.fail(R_TASK, w, "%s: the recursive call goes to level %d with first parallel level %d" % (txt, x[2], x[3]))
        got.append((min(x[:2]), max(x[:2])))
    for callee, a, w in push:
        if a[0] != tk:
            continue
        if len(a) != 3 or None in a[1:]:
            return V.unk(R_TASK, w, "arguments of the saved call")
        saved.append((min(a[1:]), max(a[1:])))
    a, b = (saved, got) if level + 1 == fpl else (got, saved)
    if b or sorted(a) != want:
        return V.fail(R_TASK, where, "%s: recursion to %s, saved %s, required %s" % (txt, got, saved, want))
    V.ok(R_TASK, where)


def allocas(ts):
    out = set()
    for t in ts:
        if isinstance(t, terms.Poly):
            for a in terms.atoms_of(t):
                if a[0] == "alloca":
                    out.add(a)
    return out


def root(V, lib, direct, makers, rng, count):
    """generate: serial call, shares of the common part, task list, queue"""
    v = lib.S.view(lib.root.name)
    S, where = lib.S, fn_where(lib.root)
    fam = set(direct)
    eff = [e for e in S.effects(lib.root.name, fam | makers) if e[0] == "rec"]
    rmw = {}
    for b in v.rpo:
        for i in b.insts:
            if i.op == "atomicrmw":
                t = v.term(i)
                rmw[t.atom()] = (i, b)
    cand = [1, 2, 3, 4, 5, 7, 8, 12, 16, 33, 64]
    for nt in cand:
        for team in sorted({1, 2, nt - 1, nt, (nt + 1) // 2} & set(range(1, nt + 1))):
            for _ in range(3):
                cfg = Hrg(lib, rng, rng.choice(("any", "deep")))
                cfg.fill(0, 0, 0)
                cfg.memory()
                try:
                    r = one_root(V, lib, v, eff, rmw, fam, makers, cfg, nt, team)
                except (Missing, Undef, Data) as e:
                    r = None
                    V.unk(R_ROOT, where, "%d threads: %s" % (nt, e))
                except OutOfCell as e:
                    V.fail(R_ROOT, where, "%d threads: %s" % (nt, e))


def rmw_value(v, inst, k):
    """k-th value an atomic counter hands out"""
    op = inst.x if isinstance(inst.x, str) else inst.x.get("op") if isinstance(inst.x, dict) else None
    step = v.num(v.at(inst.ops[1], inst.bb))
    if "add" not in str(op) or step.const() is None:
        raise Missing("atomic operation %s" % op)
    base = fview.rootval(inst.ops[0])
    init = None
    for f in v.fn.insts():
        if f.op == "store" and fview.rootval(f.ops[1]) is base:
            init = v.num(v.at(f.ops[0], f.bb)).const()
        if f.op == "call" and getattr(f.x, "v", "").startswith("llvm.memset") and fview.rootval(f.ops[0]) is base:
            init = v.num(v.at(f.ops[1], f.bb)).const()
        if f.op == "call" and getattr(f.x, "v", "").startswith("llvm.memcpy") and fview.rootval(f.ops[0]) is base and getattr(f.ops[1], "kind", "") == "global":
            m = re.search(r"\bi(?:32|64) (-?\d+)", v.fn.mod.globals.get(f.ops[1].v, {}).get("text", ""))
            init = P(int(m.group(1))).const() if m else None
        if f.op == "call" and CTOR.match(policy.qual(ir.demangle(getattr(f.x, "v", "") or ""))) and len(f.ops) == 2 and fview.rootval(f.ops[0]) is base:
            init = v.num(v.at(f.ops[1], f.bb)).const()
    if init is None:
        raise Missing("first value of the counter")
    return float(init + step.const() * k)


def one_root(V, lib, v, eff, rmw, fam, makers, cfg, nt, team):
    S, where, sp = lib.S, fn_where(lib.root), cfg.sp
    base = {v.term(v.fn.args[0]).atom(): cfg.this, v.term(v.fn.args[1]).atom(): 5.0, ("maxthreads",): float(nt), ("team",): float(team)}
    regs, tasks = {}, None
    lists = set()
    for _, callee, b, i, a in eff:
        if callee in makers:
            lists |= {x.atom() for x in a if x.atom() and x.atom()[0] == "alloca"}
    todo = allocas([x for e in eff for x in e[4]]) | lists
    for a in todo:
        buf = sp.alloc(lambda o: None, "buffer")
        regs[buf] = a
        base[a] = sp.alloc({0: buf}.get, "object")
    starts, shares, made, runs = [], [], [], []
    ntask = 5
    body = {}
    for k in range(ntask):
        body[8 * k], body[8 * k + 4] = 1000.0 + 7 * k, 2000.0 + 11 * k
    for a in lists:
        r = sp.alloc(body.get, "task list")
        base[a] = sp.alloc({0: r, 8: r + 8.0 * ntask, 16: r + 8.0 * ntask}.get, "task list object")
    sizes = {}
    fns = lib.fns(cfg)
    for tid in range(team if nt > 1 else 1):
        env = dict(base)
        env[("tid",)] = float(tid)

        def data(m, a):
            if a in rmw:
                L = v.loopof.get(rmw[a][1])
                if not L:
                    raise Missing("counter outside of a loop")
                k = m.env.get(v.loops_of(rmw[a][1])[-1].K.atom())
                if k is None:
                    raise Missing("counter outside of its loop")
                return rmw_value(v, rmw[a][0], k)
            return None
        it = Interp(v, lambda e: HModel(1, sp, e, fns, data))
        for _, callee, b, i, a in eff:
            for e, ds in it.points(b, env):
                if ds:
                    raise Missing("call depends on data")
                m = it.model(e)
                runs.append((tid, callee, [value_or(m, x) for x in a], v.where(i), any(x in rmw for x in atoms_in(v, b))))
        if not sizes:
            m = it.model(env)
            for c in v.calls():
                if c.inst.ops and c.inst.ops[0].ty == "ptr" and len(c.inst.ops) > 1:
                    t = v.num(v.at(c.inst.ops[0], c.inst.bb)).atom()
                    for o in c.inst.ops[1:]:
                        if o.ty == "i64" and t in base:
                            try:
                                sizes[t] = m.value(v.num(v.at(o, c.inst.bb)))
                            except (Missing, Data, Undef):
                                pass
    fargs = lambda c: [c[2][k] for k in ints_of(S.M.fns[c[1]])]
    if any(None in fargs(c) or c[2][0] != cfg.this and c[1] in fam for c in runs):
        raise Missing("arguments of the calls")
    txt = "%d threads, team of %d" % (nt, team)
    parts = [c for c in runs if len(fargs(c)) == 6]
    whole = [c for c in runs if len(fargs(c)) == 3 and fargs(c)[2] == 0]
    rest = [c for c in runs if len(fargs(c)) == 3 and fargs(c)[2] != 0]
    mk = [c for c in runs if c[1] in makers]
    if not parts:
        if len(whole) != 1 or fargs(whole[0]) != [0, 0, 0] or rest or mk:
            return V.fail(R_ROOT, (whole + runs)[0][3] if runs else where, "%s: the root cell is visited %d times" % (txt, len(whole)))
        return V.ok(R_ROOT, whole[0][3])
    if whole:
        return V.fail(R_ROOT, whole[0][3], "%s: complete recursion beside the shares" % txt)
    fpl, m = fargs(parts[0])[3:5]
    for c in parts:
        if fargs(c)[:5] != [0, 0, 0, fpl, m]:
            return V.fail(R_ROOT, c[3], "%s: share called with %s" % (txt, fargs(c)))
    got = sorted(fargs(c)[5] for c in parts)
    if got != list(range(int(m))):
        return V.fail(R_ROOT, parts[0][3], "%s: shares %s of %d are processed" % (txt, [int(x) for x in got], m))
    if fpl < 1:
        return V.fail(R_ROOT, parts[0][3], "%s: calls are saved on level %d, which the recursion never reaches" % (txt, fpl))
    need = 1 if fpl < cfg.levels else 0
    if len(mk) != need:
        return V.fail(R_ROOT, mk[0][3] if mk else where, "%s: the task list is built %d times, required %d (first parallel level %d of %d levels)" % (txt, len(mk), need, fpl, cfg.levels))
    for c in mk:
        if fargs(c) != [0, 0, 0, fpl]:
            return V.fail(R_ROOT, c[3], "%s: task list is built with %s" % (txt, fargs(c)))
    by = {}
    for c in rest:
        by.setdefault(c[0], []).append(c)
    if set(by) != set(range(team)):
        return V.fail(R_ROOT, where, "%s: threads %s process the task list" % (txt, sorted(by)))
    for t, cs in by.items():
        have = [tuple(fargs(c)) for c in cs]
        want = [(body[8 * k], body[8 * k + 4], fpl) for k in range(ntask)]
        if have != want:
            return V.fail(R_ROOT, cs[0][3], "%s: a thread alone on %d tasks processes %s" % (txt, ntask, have))
    V.ok(R_ROOT, where)
    # generators
    gen = lambda c: [sp.name(x) for k, x in enumerate(c[2]) if x is not None and k and sp.name(x)[0] in ("buffer", "object")]
    used = {}
    cells = 1 << (int(fpl) - 1)
    total = 3 * cells + 4 * (cells if cells > 2 else cells - 1)        # calls saved on the first parallel level
    for c in parts + by[0]:
        g = [(x, x - y[1]) for k, x in enumerate(c[2]) if x is not None and k and (y := sp.name(x))[0] == "buffer"]
        if len(g) != 1:
            raise Missing("generator argument")
        key = g[0][0]
        if key in used:
            return V.fail(R_GEN, c[3], "%s: one generator serves two calls" % txt)
        used[key] = c
        a = regs.get(g[0][1])
        n = sizes.get(a)
        k = (key - g[0][1]) / 2504.0
        if n is None or k != int(k):
            raise Missing("array of generators")
        last = k if c in parts else (by[0][0][2] and k - by[0].index(c) + total - 1)
        if last >= n:
            return V.fail(R_GEN, c[3], "%s: call needs generator %d of %d" % (txt, last, n))
    V.ok(R_GEN, where)


def atoms_in(v, b):
    out = set()
    for L, c in v.guards(b):
        pass
    return out


def layer_pairs(V, lib, rng):
    v = lib.cv
    where = fn_where(lib.ctor)
    this = v.term(v.fn.args[0])
    offp, offf = lib.vec["pairs"], lib.vec["filters"]
    if offp is None or offf is None:
        V.unk(R_LP, where, "table of layer pairs or filters not found")
        return
    sites = []
    for b in v.rpo:
        for i in b.insts:
            if i.op == "call" and getattr(i.x, "kind", "") == "fn" and PUSHQ.match(policy.qual(ir.demangle(i.x.v))):
                sites.append((b, i, [v.num(v.at(i.ops[0], b))] + [pushed(v, i, o) for o in i.ops[1:]]))
    res = [(c, [v.num(v.at(o, c.inst.bb)) for o in c.inst.ops]) for c in v.calls() if c.q == "std::vector::resize"]
    for k in range(30):
        cfg = Hrg(lib, rng, "any")
        cfg.fill(0, 0, 0)
        cfg.memory()
        env = lib.ctor_env(cfg)
        env[("tid",)] = 0.0
        it = Interp(v, lambda e: HModel(1, cfg.sp, e, lib.fns(cfg)))
        seen, filt = {}, {}
        rule = R_LP
        try:
            hit = False
            sz = {}
            for c, ar in res:
                off = (ar[0] - this).const()
                if off in (offp, offf):
                    pts = it.points(c.inst.bb, env)
                    if pts:
                        sz[off] = it.model(env).value(ar[1])
            for b, i, ar in sites:
                mine = mentions_pairs(ar[0], v, offp) or mentions_pairs(ar[0], v, offf)
                rule = R_FILT if mentions_pairs(ar[0], v, offf) else R_LP
                try:
                    pts = it.points(b, env)
                except (Missing, Undef, Data):
                    if mine:
                        raise
                    continue
                for e, ds in pts:
                    m = it.model(e)
                    try:
                        nm, off = cfg.sp.name(m.value(ar[0]))
                    except (Missing, Undef, Data):
                        continue
                    if nm == "layer pair table":
                        hit = True
                        if len(ar) != 3:
                            raise Missing("entry of the layer pair table")
                        seen.setdefault((int(m.value(ar[1])), int(m.value(ar[2]))), []).append(off / 24.0)
                    elif nm == "filter table":
                        filt.setdefault(off / 24.0, []).append((entry(lib, v, i, m), v.where(i)))
            rule = R_LP
            if not hit:
                raise Missing("nothing is filed")
        except (Missing, Undef, Data, OutOfCell) as e:
            V.unk(rule, where, str(e))
            continue
        bad = None
        for x in range(cfg.K):
            for y in range(cfg.K):
                s = seen.pop((x, y), [])
                if len(s) != 1 or s[0] != cfg.pbl(x, y):
                    bad = bad or "layers %d, %d (R=%.3f) are filed at level(s) %s, required %d" % (x, y, cfg.R, s, cfg.pbl(x, y))
        if seen:
            bad = bad or "layers %s do not exist" % (next(iter(seen)),)
        if offp in sz and sz[offp] < cfg.levels:
            bad = bad or "table has %d levels, %d are needed" % (sz[offp], cfg.levels)
        V.fail(R_LP, where, bad) if bad else V.ok(R_LP, where)
        if not cfg.Tp:
            continue
        bad, unk = None, None
        if offf in sz and sz[offf] < cfg.K ** 2:
            bad = "table of filters has %d entries, %d are needed" % (sz[offf], cfg.K ** 2)
        for x in range(cfg.K):
            for y in range(cfg.K):
                es = filt.pop(float(x * cfg.K + y), [])
                n = max(cfg.pbl(x, y) - 1, 0)
                if len(es) != n:
                    bad = bad or (where, "layers %d, %d have %d filters, %d levels need one" % (x, y, len(es), n))
                for l, (ent, w) in enumerate(es):
                    if ent is None:
                        unk = w
                        continue
                    for gap, (p, R, T) in enumerate(ent, 1):
                        if gap == 2 and l == 0:                # level 2 has 4 cells: no pair of cells has 2 between them
                            continue
                        want = cfg.fprob(x, y, l + 2, gap)
                        if p < want * (1 - 1e-9) or p > 1 or R != cfg.R or T != cfg.Tp:
                            bad = bad or (w, "filter of layers %d, %d, level %d, gap of %d cells is made for probability %.5g, R=%.4g, T=%.4g; required at least %.5g, with %.4g, %.4g" %
                                          (x, y, l + 2, gap, p, R, T, want, cfg.R, cfg.Tp))
        if bad:
            V.fail(R_FILT, bad[0] if isinstance(bad, tuple) else where, bad[1] if isinstance(bad, tuple) else bad)
        elif unk:
            V.unk(R_FILT, unk, "entry not understood")
        else:
            V.ok(R_FILT, where)


def entry(lib, v, push, m):
    """((prob, R, T) of the first, of the second filter) of an appended pair: constructor calls copied into the temporary"""
    tmp = fview.rootval(push.ops[1])
    parts = {}
    made = {}
    for i in push.bb.insts:
        if i is push:
            break
        if i.op != "call":
            continue
        q = policy.qual(ir.demangle(i.x.v)) if getattr(i.x, "kind", "") == "fn" and i.x.v.startswith("_Z") else getattr(i.x, "v", "")
        if q.endswith("DistanceFilter::DistanceFilter") and len(i.ops) == 4:
            made[v.num(v.at(i.ops[0], i.bb))] = i
        elif q.startswith("llvm.memcpy"):
            made[v.num(v.at(i.ops[0], i.bb))] = made.get(v.num(v.at(i.ops[1], i.bb)))
    base = v.num(v.at(push.ops[1], push.bb))
    out = []
    for off in (0, lib.filter_size):
        c = made.get(base + off)
        if c is None:
            return None
        out.append([m.value(v.num(v.at(o, c.bb))) for o in c.ops[1:]])
    return out


def pbl_rule(rep, lib, conf, rng):
    """the loop of RadiusLayer::partitioningBaseLevel"""
    from probe import Probe
    fs = [f for f in lib.M.fns.values() if not f.decl and policy.qual(f.dname).endswith("RadiusLayer::partitioningBaseLevel")]
    if not fs:
        rep.undecided(R_PBL, "RadiusLayer::partitioningBaseLevel", "function not found", conf)
        return
    v = fview.FView(fs[0])
    where = fn_where(fs[0])
    fns = {H + "hyperbolicDistance": lambda m, a: hdist(m.poly(a[1]), m.poly(a[3]), m.poly(a[2]) - m.poly(a[4]))}
    V = Verdict(rep, conf)
    for k in range(60):
        R = rng.choice((rng.uniform(1.2, 10), rng.uniform(2, 40)))
        r1, r2 = (R - rng.randint(1, max(1, int(R))) * (1 if rng.random() < 0.7 else rng.uniform(0.2, 1)) for _ in "ab")
        want = 0
        while hdist(r1, r2, PI / 2 ** want) > R:
            want += 1
        if any(abs(hdist(r1, r2, PI / 2 ** l) - R) < 1e-9 for l in (want, max(want - 1, 0))):
            continue
        env = bind(v, [r1, r2, R])
        it = Interp(v, lambda e: HModel(1, heap.Space(), e, fns))
        try:
            got = []
            for b in v.rpo:
                if b.insts and b.insts[-1].op == "ret":
                    for e, ds in it.points(b, env):
                        got.append(it.model(e).value(v.at(b.insts[-1].ops[0], b)))
        except (Missing, Undef, Data) as e:
            V.unk(R_PBL, where, str(e))
            continue
        if got != [want]:
            V.fail(R_PBL, where, "inner radii %.4f, %.4f, R %.4f: level %s, required %d" % (r1, r2, R, got, want))
        else:
            V.ok(R_PBL, where)
    V.close()


def c06(rep, tmp, conf, defs):
    lib = HrgLib(tmp, defs, rep)
    V = Verdict(rep, conf)
    S = lib.S
    rv = S.view(lib.root.name)
    direct = {c.callee for c in rv.calls() if c.callee in S.samplers}
    if not direct:
        rep.undecided(R_ROOT, fn_where(lib.root), "no sampler call in generate", conf)
        return
    recs = {n for n in S.samplers if n in lib.M.recursive or n in direct}
    makers = creators(S)
    rng = random.Random(99 + len(defs))
    n = 480 if rep.tier == "thorough" else 110
    kinds = ("same", "touch", "far", "far", "same", "touch", "deep")
    for name in sorted(recs):
        f = lib.M.fns[name]
        ints = ints_of(f)
        if len(ints) not in (3, 6) or ints[0] != 1:
            rep.undecided(R_REC, fn_where(f), "signature of %s not understood" % policy.qual(f.dname), conf)
            continue
        for k in range(n):
            one(V, lib, f, ints, rng, kinds[k % 7], recs)
    for name in sorted(makers):
        f = lib.M.fns[name]
        for k in range(n):
            one_creator(V, lib, f, ints_of(f), rng, kinds[k % 7])
    skips(V, S, recs, R_SKIP)
    widths(V, S, recs)
    root(V, lib, direct, makers, rng, n)
    layer_pairs(V, lib, rng)
    V.close()
    pbl_rule(rep, lib, conf, rng)
    lemmas(rep, tmp, [geom.c09_hyper, geom.c12_hyper], "touch|cell of a point|has 2|starts at|child of|covers|index within|between|gap", conf, defs)


# ------------------------------------------------------------------------------------------------- C08
class PointData:
    """radii and angles of the points of one instance: every point lies in its cell and layer"""

    def __init__(self, cfg, rng, A, B, level):
        self.cfg, self.U, self.used = cfg, 0.5, []
        self.r, self.phi, self.img = {}, {}, {}
        tight = rng.random() < 0.6
        f = geom.first(1, level)
        m = 1 << level
        up = (B - A) % m <= m // 2                            # B follows A: facing edges are the upper of A, the lower of B
        for p in cfg.layer:
            i, c = cfg.layer[p], cfg.cell[p]
            lo = max(cfg.rmin(i), 0.0)
            u = rng.uniform(0.001, 0.999)
            t = rng.uniform(0.001, 0.999)
            if tight:
                u = rng.uniform(1e-4, 0.02)
                cl = (c >> (cfg.T[i] - level)) + f if cfg.T[i] >= level else None
                t = rng.uniform(1e-4, 0.02)
                if cl == A and up or cl == B and not up:
                    t = 1 - t
            self.r[p] = lo + u * (cfg.R - i - lo)
            self.phi[p] = (c + t) * 2 * PI / (1 << cfg.T[i])

    def field(self, p, f):
        if p not in self.r:
            return None
        im = self.img.get(p)
        if im is None:
            im = self.img[p] = self.cfg.lib.point_image(self.cfg.index.get(p, 0), self.r[p], self.phi[p], 0)
        return im.get(f)

    def dist(self, p, q):
        return hdist(self.r[p], self.r[q], self.phi[p] - self.phi[q])


def decide(V, lib, f, ints, rng, inst):
    cfg, level, A, B, touch = inst
    S = lib.S
    short = policy.qual(f.dname).split("::")[-1]
    where = fn_where(f)
    args = [None] * len(f.args)
    args[0] = cfg.this
    args[ints[0]], args[ints[1]], args[ints[2]] = float(A), float(B), float(level)
    if len(ints) == 6:
        args[ints[3]], args[ints[4]], args[ints[5]] = float(level + 2), 1.0, 0.0
    v = S.view(f.name)
    fns = lib.fns(cfg)
    thr = cfg.Tp == 0
    rule = R_THR if thr else R_PROB
    byidx = cfg.byidx

    def extra(mm, a):
        return 0.0 if a[0] == "call" and a not in S.dr[f.name].draw else None

    def run(U):
        data.U = U
        return decisions(S, f.name, cfg, args, fns, cfg.maxblock(level, A, B))
    cfg.data = None
    cfg.extra = extra
    try:
        data = PointData(cfg, rng, A, B, level)
        cfg.data = data
        try:
            first = run(0.5)
        except Undef:
            return
        if not touch:
            dropped(V, cfg, [x[:2] for x in first], level, A, B, excl(cfg, level, A, B), where)
        if not first:
            return
        pick = [first[rng.randrange(len(first))] for _ in range(3)]
        us = [0.5, 0.0]
        for u, w, acc, sel, wh, used, b, tid in pick:
            p, q = byidx.get(u), byidx.get(w)
            if p is None or q is None or p == q:
                continue
            if rng.random() < 0.7:                            # distances near R
                near(cfg, data, p, q, rng)
            if thr:
                continue
            t = cfg.cprob(data.dist(p, q)) / (sel if sel else 1.0)
            us += [t * 0.999, t * 1.001, 0.999, rng.random()]
        for U in us:
            if not 0 <= U < 1:
                continue
            try:
                res = run(U)
            except Undef:
                continue
            for u, w, acc, sel, wh, used, b, tid in res:
                p, q = byidx.get(u), byidx.get(w)
                if p is None or q is None or p == q:
                    continue
                d = data.dist(p, q)
                txt = "radii %.5g, %.5g, distance %.6g, R %.6g, T %.3g" % (data.r[p], data.r[q], d, cfg.R, cfg.Tp)
                if thr:
                    if abs(d - cfg.R) > 1e-5 and acc != (d < cfg.R):
                        return V.fail(rule, wh, "pair is %s: %s" % ("reported" if acc else "not reported", txt))
                    continue
                pr = cfg.cprob(d)
                s = 1.0 if sel is None else sel
                if s < pr * (1 - 1e-6):
                    return V.fail(rule, wh, "pair is selected with probability %.6g only, required %.6g: %s" % (s, pr, txt))
                t = pr / s
                if abs(U - t) > 1e-5 * t and acc != (U < t):
                    return V.fail(rule, wh, "selected with probability %.6g and then %s for a draw at %.6g of its range, required probability %.6g: %s" %
                                  (s, "accepted" if acc else "rejected", U, pr, txt))
                for x in used:
                    db = S.dr[f.name].draw[x][2].inst.bb
                    if v.loops_of(db)[-1:] != v.loops_of(b)[-1:]:
                        return V.fail(R_FRESH, v.where(S.dr[f.name].draw[x][2].inst), "one draw decides about several pairs")
                    V.ok(R_FRESH, wh)
        V.ok(rule, where)
    except (Missing, Undef, Data) as e:
        V.unk(rule, where, "%s: %s" % (short, e))
    except OutOfCell as e:
        V.fail(rule, where, "%s on cells %d, %d of level %d: %s" % (short, A, B, level, e))
    finally:
        cfg.data = cfg.extra = None


def near(cfg, data, p, q, rng):
    """move the radius of q within its layer so that the distance to p comes close to R"""
    i = cfg.layer[q]
    lo, hi = max(cfg.rmin(i), 0.0) + 1e-3, cfg.R - i - 1e-3
    by = rng.choice((1e-3, 0.02, 0.3))
    if 0 < cfg.Tp < 1e-3:
        by = cfg.Tp * rng.uniform(0.5, 4)
    want = cfg.R + rng.choice((-1, 1)) * by
    g = lambda r: hdist(data.r[p], r, data.phi[p] - data.phi[q]) - want
    a, b = lo, hi
    if (g(a) > 0) == (g(b) > 0):
        return
    for _ in range(50):
        c = (a + b) / 2
        if (g(c) > 0) == (g(a) > 0):
            a = c
        else:
            b = c
    data.r[q] = a
    data.img.pop(q, None)


def c08(rep, tmp, conf, defs, part=0):
    lib = HrgLib(tmp, defs, rep)
    V = Verdict(rep, conf)
    S = lib.S
    rv = S.view(lib.root.name)
    direct = {c.callee for c in rv.calls() if c.callee in S.samplers}
    recs = {n for n in S.samplers if n in lib.M.recursive or n in direct}
    skips(V, S, recs, R_SKIP)
    widths(V, S, recs)
    rng = random.Random(42 + len(defs) + 100 * part)
    n = 160 if rep.tier == "thorough" else 42
    for name in sorted(recs):
        f = lib.M.fns[name]
        ints = ints_of(f)
        if len(ints) not in (3, 6) or ints[0] != 1:
            rep.undecided(R_PROB, fn_where(f), "signature of %s not understood" % policy.qual(f.dname), conf)
            continue
        for k in range(n):
            inst = instance(lib, rng, ("same", "touch", "far", "far", "deep", "far")[k % 6], 15.0)
            if inst:
                decide(V, lib, f, ints, rng, inst)
    if part == 0:
        layer_pairs(V, lib, rng)
    V.close()
    rep.obs = [o for o in rep.obs if o["rule"] != R_LP]
    if part:
        return
    lemmas(rep, tmp, [hyper.c10, hyper.c22], ".", conf, defs)
    lemmas(rep, tmp, [geom.c09_hyper], "touch|between|gap", conf, defs)
