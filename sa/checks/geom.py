"""Geometry of the spatial trees of both libraries: distances (C09), cell arithmetic (C12), Morton codes (C11), conversions (C21)."""
import bdd
import bits
import fview
import ir
import rnd
import terms
import units
from ir import AnalysisError
from terms import P, atom
from probe import Probe, judge_eq, opaque_atoms, show

PI = atom(("pi",))
EX = "vh_pure_extract"
COL = "girgs::SpatialTreeCoordinateHelper::cellOfLevel"


def first(D, l):
    return ((1 << (D * l)) - 1) // ((1 << D) - 1)


def morton(cs, D, l):
    r = 0
    for b in range(l):
        for d in range(D):
            r |= ((cs[d] >> b) & 1) << (b * D + d)
    return r


def demorton(c, D, d):
    r = b = 0
    c >>= d
    while c:
        r |= (c & 1) << b
        c >>= D
        b += 1
    return r


def pick_level(m, lvl, maxl):
    return min(maxl, int(m.rnd("level" + str(lvl)) * (maxl + 1)))


def cells_dom(lvl, cells, D, maxl, extra=None):
    """random level, random cells of that level; later cells are close to the first one half of the time"""
    def dom(a, u, m):
        if a == lvl:
            return float(pick_level(m, lvl, maxl)) if u is not None else None
        if a in cells and u is not None:
            l = pick_level(m, lvl, maxl)
            base = []
            for d in range(D):
                x, e = m.rnd("c%d" % d), m.rnd("end%d" % d)
                # close to the seam of the ring half of the time
                base.append((int(x * 6) - 3) % (1 << l) if e < 0.5 else int(x * (1 << l)))
            k = cells.index(a)
            if k == 0:
                cs = base
            else:
                cs = []
                for d in range(D):
                    x = m.rnd("o%d.%d" % (k, d))
                    if m.rnd("near") < 0.7:
                        cs.append((base[d] + int(x * 5) - 2) % (1 << l))
                    else:
                        cs.append(int(x * (1 << l)))
            return float(first(D, l) + morton(cs, D, l))
        if a[0] == COL and u is None:
            c = int(m.poly(a[1]))
            l = 0
            while first(D, l + 1) <= c:
                l += 1
            return float(c - first(D, l))
        if a[0] == EX and u is None:
            return float(demorton(int(m.poly(a[1])), D, int(m.poly(a[2]))))
        return extra(a, u, m) if extra else None
    return dom


def load_girg(tmp, D, defs, stub):
    if stub:
        old = fview.FView.PUREX
        fview.FView.PUREX = ("CoordinateHelper::cellOfLevel",)
        return units.build(tmp, "g%d" % D, [units.HARN + "/girg_probe.cpp"], ["VH_D=%d" % D] + defs, ["-I" + ir.SA + "/stub_bits"],
                           units.keep("CoordinateHelper::cellOfLevel"), passes=ir.UNROLL_PASSES)
    fview.FView.PUREX = ()
    return units.build(tmp, "gp%d" % D, [units.HARN + "/girg_probe.cpp"], ["VH_D=%d" % D] + defs, passes=ir.UNROLL_PASSES)


def maxlevel(D):
    return {1: 24, 2: 14, 3: 9, 4: 6, 5: 5}[D]


# ------------------------------------------------------------------------------------------------- C09
def ring(a, b, m):
    d = terms.absolute(a - b)
    return terms.minimum(d, m - d)


def c09_girg(rep, tmp, conf, defs, D):
    conf = "%s, D=%d" % (conf, D)
    M = load_girg(tmp, D, defs, True)
    rep.unit("girgs geometry probes, D=%d [%s]" % (D, " ".join(defs) or "debug"))
    pc = Probe(M, "vh_node_coord")
    ca = pc.ret()

    def coord(node, d):
        a = terms.subst(ca, lambda x: node if x == pc.a[0].atom() else P(d) if x == pc.a[1].atom() else None)
        return atom(("ld", a))
    p = Probe(M, "vh_node_dist")
    want = P(0)
    for d in range(D):
        want = terms.maximum(want, ring(coord(p.a[0], d), coord(p.a[1], d), P(1)))

    def dn(a, u, m):
        return u if u is not None and a[0] == "ld" else None
    judge_eq(rep, "node distance is max_d min(|dx_d|, 1 - |dx_d|)", p.where(), p.ret(), want, dn, conf, trials=200)
    p = Probe(M, "vh_pow")
    judge_eq(rep, "pow_to_the<D>(x) is x^D", p.where(), p.ret(), terms.power(p.a[0], P(D)), None, conf)
    for n in ("vh_touching", "vh_dist"):
        p = Probe(M, n)
        A, B, l = p.a
        two = terms.power(P(2), l)

        def ex(c, d):
            return atom((EX, atom((COL, c)), P(d)))
        rings = [ring(ex(A, d), ex(B, d), two) for d in range(D)]
        dom = cells_dom(l.atom(), [A.atom(), B.atom()], D, maxlevel(D))
        if n == "vh_touching":
            want = bdd.T
            for r in rings:
                want = want & ~bdd.igt0(r - P(1))
            judge_eq(rep, "cells touch iff every coordinate differs by at most 1 on the ring", p.where(), p.ret(), want, dom, conf, trials=500)
        else:
            mx = rings[0]
            for r in rings[1:]:
                mx = terms.maximum(mx, r)
            want = terms.maximum(P(0), (mx - P(1)) / two)
            judge_eq(rep, "cell distance is max(0, ring index distance - 1) cell widths", p.where(), p.ret(), want, dom, conf, trials=500)
    bounds(rep, M, D, conf)
    # consistency of the three notions follows from the closed forms; the geometry is checked in C12


def bounds(rep, M, D, conf):
    p = Probe(M, "vh_bounds")
    c, l, out = p.a
    dom = cells_dom(l.atom(), [c.atom()], D, maxlevel(D))
    got = {}
    for b in p.v.rpo:
        for i in b.insts:
            if i.op == "store":
                off = (p.v.addr(i.ops[1], b) - out).const()
                if off is not None:
                    got[int(off)] = (p.v.at(i.ops[0], b), p.v.where(i))
    for d in range(D):
        x = atom((EX, atom((COL, c)), P(d)))
        for k in range(2):
            g = got.get(16 * d + 8 * k)
            w = (x + P(k)) / terms.power(P(2), l)
            if g is None:
                rep.undecided("bounds of a cell are [x/2^l, (x+1)/2^l) per coordinate", p.where(), "store %d not found" % (2 * d + k), conf)
            else:
                judge_eq(rep, "bounds of a cell are [x/2^l, (x+1)/2^l) per coordinate", p.where(), g[0], w, dom, conf, trials=200)


def c09_hyper(rep, tmp, conf, defs):
    M = units.build(tmp, "hyper", [units.HARN + "/hyper_probe.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp"], defs)
    rep.unit("hypergirgs geometry probes [%s]" % (" ".join(defs) or "debug"))
    for n in ("vh_touching", "vh_dist", "vh_between"):
        p = Probe(M, n)
        A, B, l = p.a
        two = terms.power(P(2), l)
        r = ring(A, B, two)
        dom = cells_dom(l.atom(), [A.atom(), B.atom()], 1, 26)
        if n == "vh_touching":
            judge_eq(rep, "angular cells touch iff they are at most one step apart on the circle", p.where(), p.ret(), ~bdd.igt0(r - P(1)), dom, conf, trials=800)
        else:
            w = terms.maximum(P(0), r - P(1))
            if n == "vh_dist":
                w = w * P(2) * PI / two
            judge_eq(rep, "angular cell distance counts the cells strictly between", p.where(), p.ret(), w, dom, conf, trials=800, what=n[3:])
    for n, k in (("vh_bounds_lo", 0), ("vh_bounds_hi", 1)):
        p = Probe(M, n)
        c, l = p.a
        two = terms.power(P(2), l)
        dom = cells_dom(l.atom(), [c.atom()], 1, 26)
        judge_eq(rep, "bounds of an angular cell are [i, i+1) * 2 pi / 2^l", p.where(), p.ret(), (c - two + P(1 + k)) * P(2) * PI / two, dom, conf, trials=200)


# ------------------------------------------------------------------------------------------------- C12
def c12_girg(rep, tmp, conf, defs, D):
    conf = "%s, D=%d" % (conf, D)
    M = load_girg(tmp, D, defs, False)
    rep.unit("girgs tree arithmetic, D=%d [%s]" % (D, " ".join(defs) or "debug"))
    ml = maxlevel(D) + 1
    two = lambda l: terms.power(P(2), P(D) * l)
    arith(rep, M, D, conf, ml, "vh_childn")
    # index inside the level
    p = Probe(M, "vh_celloflevel")
    c = p.a[0]
    ref = atom((COL, c))
    lv = ("lv",)

    def dom(a, u, m):
        if a == c.atom():
            if u is None:
                return None
            L = 32 // D - 1
            l = pick_level(m, lv, L)
            k = int(m.rnd("edge") * 4)
            n = (1 << (D * l)) - 1
            x = first(D, l) + (0 if k == 0 else n if k == 1 else int(m.rnd("in") * (n + 1)))
            return float(x)
        if a[0] == COL and u is None:
            x = int(m.poly(a[1]))
            l = 0
            while first(D, l + 1) <= x:
                l += 1
            return float(x - first(D, l))
        return None
    judge_eq(rep, "index within the level is cell - first cell of its level", p.where(), p.ret(), ref, dom, conf, trials=600)
    shifts(rep, p, dom, conf)
    Ms = load_girg(tmp, D, defs, True)
    p = Probe(Ms, "vh_cellforpoint")
    pos, l = p.a
    cs = [atom(("trunc", atom(("ld", pos + P(8 * d))) * terms.power(P(2), l))) for d in range(D)]
    want = atom(("vh_pure_deposit",) + tuple(cs + [P(0)] * (5 - D)))

    def dp(a, u, m):
        if u is not None and a == l.atom():
            return float(int((31 // D) * u))
        if u is not None and a[0] == "ld":
            return u
        return None
    judge_eq(rep, "cell of a point is the Morton code of floor(x_d * 2^l)", p.where(), p.ret(), want, dp, conf, trials=100)
    ranges(rep, M, D, conf)


def shifts(rep, p, dom, conf):
    """every shift amount stays below the width of the shifted value"""
    for b in p.v.rpo:
        for i in b.insts:
            if i.op not in ("shl", "lshr", "ashr"):
                continue
            try:
                k = p.v.num(p.v.at(i.ops[1], b))
            except (AnalysisError, KeyError):
                continue
            if k.const() is not None:
                continue
            top = P(int(i.ty[1:]) - 1)
            judge_eq(rep, "shift amounts stay below the width of the shifted value", p.v.where(i), terms.maximum(terms.ite(p.v.full(b), k, P(0)), top), top, dom, conf, trials=600)


def lin_dom(at, hi, lo=0):
    def dom(a, u, m):
        return float(lo + int(u * (hi - lo + 1))) if u is not None and a == at else None
    return dom


def arith(rep, M, D, conf, ml, lastchild):
    K = 1 << D
    p = Probe(M, "vh_numchildren" if lastchild == "vh_childn" else "vh_children")
    judge_eq(rep, "a cell has 2^D children", p.where(), p.ret(), P(K), None, conf)
    p = Probe(M, "vh_numcells")
    l = p.a[0]
    judge_eq(rep, "level l has 2^(D l) cells", p.where(), p.ret(), terms.power(P(2), P(D) * l), lin_dom(l.atom(), ml), conf)
    p = Probe(M, "vh_firstcell")
    l = p.a[0]
    want = (terms.power(P(2), P(D) * l) - P(1)) / P(K - 1)
    judge_eq(rep, "level l starts at cell (2^(D l) - 1) / (2^D - 1)", p.where(), p.ret(), want, lin_dom(l.atom(), ml), conf)
    p = Probe(M, "vh_parent")
    c = p.a[0]
    judge_eq(rep, "parent of cell c is floor((c - 1) / 2^D)", p.where(), p.ret(), atom(("floor", (c - P(1)) / P(K))), lin_dom(c.atom(), 5000, 1), conf, trials=200)
    p = Probe(M, "vh_child1")
    judge_eq(rep, "first child of cell c is 2^D c + 1", p.where(), p.ret(), P(K) * p.a[0] + P(1), lin_dom(p.a[0].atom(), 5000), conf)
    p = Probe(M, lastchild)
    judge_eq(rep, "last child of cell c is 2^D c + 2^D", p.where(), p.ret(), P(K) * p.a[0] + P(K), lin_dom(p.a[0].atom(), 5000), conf)


def ranges(rep, M, D, conf):
    """points of a cell: one contiguous block of the sorted array"""
    ct = Probe(M, "vh_layer_ctor")
    fld = {}
    for b in ct.v.rpo:
        for i in b.insts:
            if i.op == "store":
                off = (ct.v.addr(i.ops[1], b) - ct.a[0]).const()
                if off is not None:
                    t = ct.v.at(i.ops[0], b)
                    for k in (1, 2, 3):
                        if t == ct.a[k]:
                            fld[k] = int(off)
    if len(fld) != 3:
        rep.undecided("cell ranges", ct.where(), "constructor does not store its arguments", conf)
        return
    sz = Probe(M, "vh_node_size").ret()
    for n in ("vh_layer_begin", "vh_layer_end", "vh_layer_kth", "vh_layer_count"):
        p = Probe(M, n)
        this, c, l = p.a[:3]
        T, base, pre = [atom(("ld", this + P(fld[k]))) for k in (1, 2, 3)]
        desc = terms.power(P(2), P(D) * (T - l))
        loc = c - (terms.power(P(2), P(D) * l) - P(1)) / P((1 << D) - 1)
        lo = atom(("ld", pre + P(4) * loc * desc))
        hi = atom(("ld", pre + P(4) * (loc + P(1)) * desc))
        want = {"vh_layer_begin": base + sz * lo, "vh_layer_end": base + sz * hi, "vh_layer_count": hi - lo}.get(n)
        if n == "vh_layer_kth":
            want = base + sz * (lo + p.a[3])
        inner = cells_dom(l.atom(), [c.atom()], D, 2)

        def dom(a, u, m):
            if a == T.atom():
                return float(pick_level(m, l.atom(), 2) + int(3 * m.rnd("T")))
            if u is not None and len(p.a) > 3 and a == p.a[3].atom():
                return float(int(1e6 * u ** 4))
            if a[0] == "ld" and u is not None:
                return float(1000 * int(1000 * u))
            return inner(a, u, m)
        judge_eq(rep, "cell at level l covers its 2^(D(target-l)) descendants, half open", p.where(), p.ret(), want, dom, conf, trials=200, what=n[9:])


def c12_hyper(rep, tmp, conf, defs):
    M = units.build(tmp, "hyper", [units.HARN + "/hyper_probe.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp"], defs)
    rep.unit("hypergirgs tree arithmetic [%s]" % (" ".join(defs) or "debug"))
    arith(rep, M, 1, conf, 27, "vh_child2")
    p = Probe(M, "vh_cell")
    ang, l = p.a

    def dom(a, u, m):
        if u is not None and a == l.atom():
            return float(int(25 * u))
        if u is not None and a == ang.atom():
            return 6.283 * u
        return None
    judge_eq(rep, "cell of an angle is floor(angle / 2 pi * 2^l)", p.where(), p.ret(), atom(("trunc", ang / (P(2) * PI) * terms.power(P(2), l))), dom, conf, trials=200)
    M = units.build(tmp, "rl", [units.HARN + "/radius_probe.cpp", units.SRC + "/hypergirgs/source/RadiusLayer.cpp"], defs,
                    opts={})
    rep.unit("hypergirgs/RadiusLayer [%s]" % (" ".join(defs) or "debug"))
    ranges(rep, M, 1, conf)


# ------------------------------------------------------------------------------------------------- C11
def c11(rep, tmp, conf, defs, D, bmi):
    conf = "%s, D=%d, %s" % (conf, D, "BMI2" if bmi else "generic")
    extra = ["-mbmi2", "-DUSE_BMI2"] if bmi else []
    M = units.build(tmp, "m%d" % D, [units.HARN + "/girg_probe.cpp"], ["VH_D=%d" % D] + defs, extra, passes=ir.UNROLL_PASSES)
    rep.unit("Morton code D=%d %s" % (D, conf))
    nb = 32 // D
    p = Probe(M, "vh_deposit")
    ev = bits.Bits(p.v)
    src = p.a[0]
    ev.load = lambda off: [bits.src("x%d" % (off // 4), k) if k < nb else bits.ZERO for k in range(32)] if off % 4 == 0 and 0 <= off < 4 * D else None
    ev.base = src
    r = ev.ret()
    want = [bits.src("x%d" % (k % D), k // D) if k < nb * D else bits.ZERO for k in range(32)]
    judge_bits(rep, "bit D*l+d of the cell index is bit l of coordinate d", p.where(), r, want, conf)
    p = Probe(M, "vh_extract")
    ev = bits.Bits(p.v)
    ev.args = {0: [bits.src("c", k) if k < nb * D else bits.ZERO for k in range(32)]}
    st = ev.stores(p.a[1])
    for d in range(D):
        want = [bits.src("c", D * k + d) if k < nb else bits.ZERO for k in range(32)]
        judge_bits(rep, "bit l of coordinate d is bit D*l+d of the cell index", p.where(), st.get(4 * d), want, conf)


def judge_bits(rep, rule, where, got, want, conf):
    rep.count("bit positions", len(want))
    if got is None or any(x is bits.TOP for x in got[:len(want)]):
        rep.undecided(rule, where, "bit provenance not determined", conf)
        return
    bad = [k for k in range(len(want)) if got[k] != want[k]]
    if not bad:
        rep.ok(rule, where, "", conf)
    else:
        k = bad[0]
        rep.bad(rule, where, "result bit %d comes from %s, required %s (%d of %d bits differ)" % (k, bits.show(got[k]), bits.show(want[k]), len(bad), len(want)), None, conf)


# ------------------------------------------------------------------------------------------------- C21
def c21(rep, tmp, conf, defs):
    M = units.build(tmp, "conv", [units.HARN + "/conv_probe.cpp"], defs)
    rep.unit("girgs/Hyperbolic.h [%s]" % (" ".join(defs) or "debug"))
    E = terms.exp
    L = terms.log

    def chk(n, rule, want):
        p = Probe(M, n)
        w = want(*p.a)
        judge_eq(rep, rule, p.where(), p.ret(), w, None, conf, trials=100)
    chk("vh_r2w", "weight of radius r is exp((R - r) / 2)", lambda r, R: E((R - r) / P(2)))
    chk("vh_w2r", "radius of weight w is R - 2 log(w / scaling)", lambda w, R, s: R - P(2) * L(w / s))
    chk("vh_w2r1", "default scaling is 1", lambda w, R: R - P(2) * L(w))
    chk("vh_a2p", "position of angle a is a / 2 pi", lambda a: a / (P(2) * PI))
    chk("vh_p2a", "angle of position p is 2 pi p", lambda p: p * P(2) * PI)
    chk("vh_rwr", "radius -> weight -> radius is the identity", lambda r, R: r)
    chk("vh_wrw", "weight -> radius -> weight is the identity", lambda w, R: w)
    chk("vh_apa", "angle -> position -> angle is the identity", lambda a: a)
    chk("vh_pap", "position -> angle -> position is the identity", lambda p: p)
