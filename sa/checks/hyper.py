"""Hyperbolic geometry: distance forms (C10), probability filter (C22), disk radius (C26)."""
import math
import bdd
import fview
import rnd
import terms
import units
from terms import Poly, P, atom
from probe import Probe, judge_eq, judge_strict, opaque_atoms, show

PI = atom(("pi",))
SRCS = [units.HARN + "/hyper_probe.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp"]


def load(rep, tmp, defs):
    M = units.build(tmp, "hyper", SRCS, defs)
    rep.unit("hypergirgs geometry probes [%s]" % (" ".join(defs) or "debug"))
    return M


def cosh(x):
    return terms.even("cosh", x)


def sinh(x):
    return terms.odd("sinh", x)


def cos(x):
    return terms.even("cos", x)


def dom_points(p, coshr=None):
    """radii in (0.2, 3), angles in [0, 2pi)"""
    r1, p1, r2, p2 = [a.atom() for a in p.a[:4]]

    def dom(a, u, m):
        if u is None:
            return None
        if a in (r1, r2):
            return 0.05 + 6 * u * u
        if a in (p1, p2):
            return 6.28 * u
        if coshr is not None and a == coshr:
            return 1.05 + 1e4 * u ** 4
        return None
    return dom


def c10(rep, tmp, conf, defs):
    M = load(rep, tmp, defs)
    for n, form in (("vh_free_dist", "free function"), ("vh_point_dist", "precomputed point"), ("vh_point_cosh", "precomputed point, cosh")):
        p = Probe(M, n)
        if not p.ok:
            rep.undecided("distance", n, "probe missing", conf)
            continue
        r1, p1, r2, p2 = p.a[:4]
        ch = cosh(r1 - r2) + (P(1) - cos(p1 - p2)) * sinh(r1) * sinh(r2)
        want = ch if n.endswith("cosh") else atom(("acosh", ch))
        got = p.ret()
        dom = dom_points(p)
        w = p.where()
        # identity: where the law of cosines exceeds 1 the clamp is the identity
        judge_eq(rep, "distance is acosh(cosh r1 cosh r2 - sinh r1 sinh r2 cos(dphi))", w, got, want, dom, conf, what=form, trials=200)
        # clamp: the argument of acosh / the cosh value is max(1, .)
        body = got
        a = got.atom() if isinstance(got, Poly) else None
        if a and a[0] == "acosh":
            body = a[1]
        judge_clamp(rep, w, form, body, dom, conf)
        rep.count("distance forms")
    p = Probe(M, "vh_point_below")
    r1, p1, r2, p2, cR = p.a
    ch = cosh(r1 - r2) + (P(1) - cos(p1 - p2)) * sinh(r1) * sinh(r2)
    got = p.ret()
    # sinh r1 sinh r2 > 0 is part of the meaning of both sides: compare after evaluation
    dom = dom_points(p, cR.atom())
    judge_eq(rep, "isDistanceBelowR(coshR) holds iff cosh(distance) < coshR", p.where(), got, bdd.gt0(cR - ch), dom, conf, what="threshold form", trials=400)
    s = bdd.single(got)
    if s is not None and s[0][0] == "gt0":
        rep.judge(s[1], True, "isDistanceBelowR is strict", p.where(), "the comparison accepts equality: %s" % show(got), None, conf)
    else:
        rep.undecided("isDistanceBelowR is strict", p.where(), "not a single comparison: " + show(got), conf)
    for n, pos in (("vh_point_eq", True), ("vh_point_ne", False)):
        p = Probe(M, n)
        e = bdd.eq0(p.a[0] - p.a[1])

        def dom(a, u, m, p=p):
            if u is not None and a in (p.a[0].atom(), p.a[1].atom()):
                return float(int(3 * u))
            return None
        judge_eq(rep, "points are equal iff their ids are", p.where(), p.ret(), e if pos else ~e, dom, conf, trials=200, what=n)
    for n, k in (("vh_point_id", 0), ("vh_point_cell", 1)):
        p = Probe(M, n)
        judge_eq(rep, "constructor stores id and cell", p.where(), p.ret(), p.a[k], None, conf, what=n)


def judge_clamp(rep, where, form, t, dom, conf):
    """the value never drops below 1 when rounding pushes the law of cosines under it: some max(1, .) guards it"""
    rule = "cosh(distance) is clamped at 1 before acosh"

    def at_least_one(x):
        if not isinstance(x, Poly):
            return False
        c = x.const()
        if c is not None:
            return c >= 1
        a = x.atom()
        if a is None:
            return False
        if a[0] == "max":
            return any(at_least_one(y) for y in a[1])
        if a[0] == "min":
            return all(at_least_one(y) for y in a[1])
        if a[0] == "cosh":
            return True
        if a[0] == "ite":
            # ite(x < 1, 1, x) and its mirror images
            c, th, el = a[1], a[2], a[3]
            if at_least_one(th) and at_least_one(el):
                return True
            for k, z, pos in ((th, el, True), (el, th, False)):
                if at_least_one(k):
                    if bdd.implies(bdd.gt0(P(1) - z), c if pos else ~c):
                        return True
        return False
    if at_least_one(t):
        rep.ok(rule, where, form, conf)
    elif not opaque_atoms(t) and not any(x[0] in ("ite", "max", "min") for x in terms.atoms_of(t)):
        rep.bad(rule, where, "%s: %s reaches acosh without a lower bound of 1; rounding makes it smaller for nearby points" % (form, show(t)), None, conf)
    else:
        rep.undecided(rule, where, "%s: %s" % (form, show(t)), conf)


# ------------------------------------------------------------------------------------------------- C22
def c22(rep, tmp, conf, defs):
    M = load(rep, tmp, defs)
    p = Probe(M, "vh_filter_ctor")
    v = p.v
    this, prob, R, T = p.a
    S = 100
    wr = {}
    loops = []
    for b in v.rpo:
        for i in b.insts:
            if i.op == "store" and "alloca" not in str(v.addr(i.ops[1], b)):
                off = v.addr(i.ops[1], b) - this
                ls = v.loops_of(b)
                if ls:
                    loops.append((i, b, off, ls))
                else:
                    c = off.const()
                    if c is not None:
                        wr.setdefault(int(c), []).append((i, v.at(i.ops[0], b)))
    # array base and scale fields: found through the accessors
    up, lo = Probe(M, "vh_filter_upper"), Probe(M, "vh_filter_lower")

    def dom(a, u, m):
        if u is None:
            return None
        if a == prob.atom():
            return 1e-4 + 0.9999 * u * u
        if a == T.atom():
            return 1e-3 + 0.998 * u
        if a == R.atom():
            return 0.1 + 40 * u * u
        if a in (up.a[1].atom(), lo.a[1].atom()):
            return 0.3 * u
        if a[0] == "ld":
            return 100 + 900 * u
        return None
    fields = {}
    for k, l in wr.items():
        fields[k] = l[-1][1]
    # each accessor loads stage[f(prob)]
    base = None
    for pr, rnd_, nm in ((up, "trunc", "upper bound uses floor(stages * p / max_prob)"), (lo, "ceil", "lower bound uses ceil(stages * p / max_prob)")):
        t = pr.ret()
        a = t.atom() if isinstance(t, Poly) else None
        if not a or a[0] != "ld":
            rep.undecided(nm, pr.where(), "not a load: " + show(t), conf)
            continue
        off = a[1] - pr.a[0]
        # resolve the scale field through the constructor
        def f(x):
            if x[0] == "ld":
                o = (x[1] - pr.a[0]).const()
                if o is not None and int(o) in fields:
                    return terms.subst(fields[int(o)], lambda y: prob if y == prob.atom() else None)
            return None
        off = terms.subst(off, f)
        s = P(S) * pr.a[1] / prob
        want = atom((rnd_, s))
        bs = None
        for bb in sorted({0, 8, 16, 24}):
            if rnd.same(off, P(bb) + P(8) * want, dom, 60):
                bs = bb
                break
        if bs is not None:
            rep.ok(nm, pr.where(), "", conf)
            base = bs if base is None else base
            if base != bs:
                rep.bad("both accessors use the same table", pr.where(), "offsets %d and %d" % (base, bs), None, conf)
        else:
            bad = opaque_atoms(off)
            (rep.undecided if bad else rep.bad)(nm, pr.where(), "index expression is %s" % show((off - P(8)) / P(8)), *([conf] if bad else [None, conf]))
    if base is None:
        base = 8
    # contents of the table
    for k, want, nm in ((0, terms.atom(("inf",)), "stage 0 is infinite"), (S, P(1), "last stage is cosh(0) = 1")):
        l = wr.get(base + 8 * k)
        if l is None:
            rep.undecided(nm, p.where(), "no store to this stage outside a loop", conf)
        else:
            got = l[-1][1]
            ok = got == want or (k == 0 and "inf" in str(got))
            rep.judge(ok, not opaque_atoms(got), nm, v.where(l[-1][0]), "the source stores %s" % show(got), None, conf)
    nm = "stage k is cosh(max(0, R + 2T log(1/(k max_prob/stages) - 1)))"
    covered = set()
    for i, b, off, ls in loops:
        L = ls[-1]
        n = v.trip(L)
        ka = L.K.atom()
        ix = (off - P(base)) / P(8)
        if len(ls) != 1 or n is None or n.const() is None:
            rep.undecided(nm, v.where(i), "loop bounds unknown", conf)
            continue
        got = v.at(i.ops[0], b)
        c, r = fview.split_lin(ix, ka)
        if c is None or c.const() is None or r.const() is None:
            rep.undecided(nm, v.where(i), "index %s" % show(ix), conf)
            continue
        idx = [int(c.const() * k + r.const()) for k in range(int(n.const()))]
        covered |= set(idx)
        q = prob / P(S) * ix
        want = cosh(terms.maximum(terms.ZERO, R + P(2) * T * terms.log(P(1) / q - P(1))))

        def dk(a, u, m, kk=int(n.const())):
            if u is not None and a == ka:
                return float(int(kk * u))
            return dom(a, u, m)
        judge_eq(rep, nm, v.where(i), got, want, dk, conf, what="table entry", trials=150)
    nm = "every stage is initialised"
    have = covered | {(k - base) // 8 for k in wr if (k - base) % 8 == 0 and k >= base}
    miss = [k for k in range(S + 1) if k not in have]
    if loops:
        rep.judge(not miss, all(x is not None for x in [base]), nm, p.where(), "stages %s are never written" % miss[:6], None, conf)
    else:
        rep.undecided(nm, p.where(), "no initialisation loop found", conf)


# ------------------------------------------------------------------------------------------------- C26
def c26(rep, tmp, conf, defs):
    M = units.build(tmp, "hgen", [units.SRC + "/hypergirgs/source/Generator.cpp"], defs)
    rep.unit("hypergirgs/source/Generator.cpp [%s]" % (" ".join(defs) or "debug"))
    fs = [f for f in units.fns_like(M, "hypergirgs::calculateRadius")]
    rule = "calculateRadius is 2 log(2 n alpha^2 f(T) / (deg (alpha-1/2)^2)), f(0)=1/pi, f(T)=T/sin(pi T)"
    for f in fs:
        p = Probe(M, f.name)
        n, al, T, deg = p.a
        g = terms.ite(bdd.eq0(T), P(1) / PI, T / terms.odd("sin", PI * T))
        want = P(2) * terms.log(P(2) * n * al * al * g / (deg * (al - P("1/2") if False else al - P(0.5)) * (al - P(0.5))))
        for zero in (True, False):
            def dom(a, u, m):
                if u is None:
                    return None
                if a == T.atom():
                    return 0.0 if zero else 1e-6 + 0.99 * u ** 3
                if a == al.atom():
                    return 0.5 + 1e-3 + 3 * u * u
                if a == n.atom():
                    return float(1 + int(1e6 * u ** 3))
                if a == deg.atom():
                    return 0.05 + 200 * u * u
                return None
            judge_eq(rep, rule, p.where(), p.ret(), want, dom, conf, what="T = 0" if zero else "T > 0", trials=120)
    if not fs:
        rep.undecided(rule, "hypergirgs/source/Generator.cpp", "function not found", conf)
    fs = [f for f in units.fns_like(M, "hypergirgs::calculateRadiusLikeNetworKit")]
    for f in fs:
        p = Probe(M, f.name)
        n, al, T, deg = p.a
        got = p.ret()
        beta = P(1) / T
        xi = (P(2) * al - P(1)) / (P(2) * al)
        cold = P(2) * terms.log(n / (deg * (beta / PI * terms.odd("sin", PI * T)) * (PI / P(2)) * xi * xi))
        hot = P(2) * terms.log(n / (deg * (P(1) - beta) * terms.power(PI / P(2), beta) * xi * xi)) / beta
        for warm, want, rule in ((False, cold, "calculateRadiusLikeNetworKit for 0 < T < 1 is 2 log(n / (k f(T) (pi/2) xi^-2))"),
                                 (True, hot, "calculateRadiusLikeNetworKit for T > 1 is 2 T log(n / (k (1-1/T) (pi/2)^(1/T) xi^-2))")):
            def dom(a, u, m, warm=warm):
                if u is None:
                    return None
                if a == T.atom():
                    return 1.001 + 5 * u * u if warm else 1e-6 + 0.99 * u ** 3
                if a == al.atom():
                    return 0.5 + 1e-3 + 3 * u * u
                if a == n.atom():
                    return float(1 + int(1e6 * u ** 3))
                if a == deg.atom():
                    return 0.05 + 200 * u * u
                return None
            # the branch T = 0 (bisection) is opaque; it does not contribute for T > 0
            if got is None:
                rep.undecided(rule, p.where(), "no value", conf)
            elif rnd.same(got, want, dom, 100):
                k = undefined(got, want, dom)
                if k:
                    rep.bad(rule, p.where(), "no value %s" % k, None, conf)
                else:
                    rep.ok(rule, p.where(), "", conf)
            else:
                sub = cofactor(got, bdd.eq0(T), False)
                judge_eq(rep, rule, p.where(), sub, want, dom, conf, trials=100)


def undefined(got, want, dom):
    """models in which only the wanted term has a value: half of the models or more"""
    n = bad = 0
    for k in range(60):
        m = rnd.Model(k, dom)
        try:
            m.poly(want)
        except (rnd.Undef, OverflowError, ValueError, ZeroDivisionError):
            continue
        n += 1
        try:
            m.poly(got)
        except (rnd.Undef, OverflowError, ValueError, ZeroDivisionError):
            bad += 1
    return "in %d of %d cases" % (bad, n) if n and bad else None


def cofactor(t, lit, val):
    """the term under the assumption that a comparison has a fixed truth value"""
    l = bdd._rev[lit.v]

    def f(x):
        return bdd.restrict(x, {l: val})
    return map_conds(t, f)


def map_conds(t, f):
    def g(a):
        if a[0] == "ite":
            c = f(a[1])
            x, y = map_conds(a[2], f), map_conds(a[3], f)
            return terms.ite(c, x, y) if c not in (bdd.T, bdd.F) else (x if c is bdd.T else y)
        return None
    return terms.subst(t, g)
