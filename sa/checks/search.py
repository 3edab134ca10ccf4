"""Degree searches (C27): what is known when the search loops behind the weight scaling and the NetworKit radius end."""
import bdd
import fview
import policy
import rnd
import terms
import units
from ir import Const, Inst
from terms import P, atom
from probe import opaque_atoms, show

PI = atom(("pi",))
R_END = "the search ends only where the degree function was evaluated to within the tolerance of the requested degree"
R_ARG = "the value returned belongs to the argument of this evaluation"
R_NKR = "the NetworKit radius for temperature 0 has an estimated degree within 0.01 of the requested one"


def resolve(v, t, depth=4):
    """terms the view gave up on because they were asked for inside of their own recurrence"""
    by = {i.id: i for i in v.fn.insts() if hasattr(i, "id")}

    def f(a):
        if a[0] == "cyc" and a[-1] in by:
            i = by[a[-1]]
            x = v.at(i, i.bb)
            if not isinstance(x, terms.Poly) and x is not None:
                x = terms.ite(x, P(1), P(0))
            if isinstance(x, terms.Poly) and a not in terms.atoms_of(x):
                return x
        return None
    for _ in range(depth):
        if t is None:
            return None
        if isinstance(t, terms.Poly):
            n = terms.subst(t, f)
        else:
            n = bdd.bdd_subst(t, lambda p: terms.subst(p, f))
        if n == t:
            break
        t = n
    return t


def exits(v, L):
    """[(block, condition under which the loop is left there)] in terms of the phis of the loop's header"""
    return [(b, resolve(v, v.rc(b) & v.edge_cond(b, s))) for b, s in L.exits]


def last(t, L, v):
    """value at the exit in terms of the last iteration"""
    def f(a):
        if a[0] == "fin":
            p = a[1]
            if p in v.recur and v.recur[p][0] is L:
                return atom(p)
        return None
    return terms.subst(t, f)


def assume(t, c):
    """simplify the choices in t that are decided by c"""
    def f(a):
        if a[0] == "ite" and c is not bdd.F:
            g = bdd.constrain(a[1], c)
            if g is bdd.T or g is bdd.F:
                return assume(a[2] if g is bdd.T else a[3], c)
        return None
    return terms.subst(t, f)


def loops_in(t, v):
    out = []
    for a in terms.atoms_of(t, deep=True):
        if a[0] == "fin" and a[1] in v.recur and v.recur[a[1]][0] not in out:
            out.append(v.recur[a[1]][0])
    return out


def retval(v):
    r = None
    for b in v.rpo:
        if b.term.op == "ret" and b.term.ops:
            r = v.at(b.term.ops[0], b)
            where = v.where(b.term)
    return (r, where) if r is not None else (None, None)


def atoms_cond(c):
    out = set()
    for l in bdd.support(c):
        if l[0] in ("gt0", "igt0", "eq0"):
            out |= set(terms.atoms_of(l[1], deep=True))
    return out


DELTAS = (0.0, 0.4, -0.4, 0.99, -0.99, 1.02, -1.02, 3.0, -3.0, 40.0, -40.0, 1e4, -1e4)


def tolerance(cond, setter, acc, base, trials=24):
    """the condition only holds if the quantity is within acc: (good, ever true, example)"""
    ever = False
    for k in range(trials):
        for x in DELTAS:
            m = rnd.Model(k, setter(x * acc, base), True)
            try:
                h = m.bdd(cond)
            except (rnd.Undef, OverflowError, ZeroDivisionError, ValueError):
                return None, ever, ""
            if h and abs(x) > 1:
                return False, True, "left although the estimate differs by %g" % (x * acc)
            ever = ever or h
    return True, ever, ""


def is_fn(c):
    return c.q is not None and c.q.endswith("function::operator()")


def scaling(rep, tmp, conf, defs):
    def pol(n, d):
        return policy.default(n, d) or "std::function" in d and "operator()" in d
    M = units.build(tmp, "ws", [units.SRC + "/girgs/source/WeightScaling.cpp"], defs, (), pol)
    rep.unit("girgs/source/WeightScaling.cpp [%s]" % (" ".join(defs) or "debug"))
    for name, power in (("girgs::estimateWeightScaling", lambda d, a: P(1) / a), ("girgs::estimateWeightScalingThreshold", lambda d, a: d)):
        fs = units.fns_like(M, name)
        if not fs:
            rep.undecided(R_END, name, "function not found", conf)
        for f in fs:
            v = fview.FView(f)
            deg, dim = v.term(f.args[1]), v.term(f.args[2])
            al = v.term(f.args[3]) if len(f.args) > 3 else None
            ret, where = retval(v)
            if not isinstance(ret, terms.Poly):
                rep.undecided(R_ARG, name, "no value", conf)
                continue
            Ls = loops_in(ret, v)
            inner = [L for L in Ls if not any(o is not L and o.h in L.body for o in Ls)]
            calls = {v.term(c.inst).atom(): c for c in v.calls() if is_fn(c)}
            # the loop the returned value comes from
            done = False
            for L in inner:
                ex = exits(v, L)
                cands = []
                for b, c in ex:
                    for a in atoms_cond(c):
                        if a in calls:
                            cands.append((a, b))
                        elif a in v.recur and v.recur[a][0] is L:
                            cands.append((a, b))
                ev = {}
                for a, b in cands:
                    x = argument(v, L, a, calls)
                    if x is not None:
                        ev[a] = x
                if not ev:
                    continue
                done = True
                for b, c in ex:
                    if c is bdd.F:
                        continue
                    w = v.where(b.term)
                    res = []
                    for a in ev:
                        def setter(dx, base, a=a):
                            def dom(y, u, m):
                                if y == a and u is not None:
                                    return base(deg.atom(), u, m) + dx
                                return base(y, u, m)
                            return dom

                        def base(y, u, m):
                            if y == deg.atom():
                                return want
                            if y == dim.atom():
                                return 2.0
                            if u is None:
                                return None
                            return float(int(10 ** (5 * u))) if y[0] in ("k", "kx") else 0.1 + 3 * u
                        rs = []
                        for want in (12.5, 1.25, 4000.0, 250000.0):
                            rs.append(tolerance(c, setter, 0.02, base))
                        fails = [r for r in rs if r[0] is not True]
                        res.append((a,) + (fails[0][0] if fails else True, all(r[1] for r in rs), fails[0][2] if fails else ""))
                    good = [r for r in res if r[1]and r[2]]
                    if not good:
                        rep.judge(False, all(r[1] is False for r in res), R_END, w, "%s: %s" % (name, res[0][3] or "condition not understood"), None, conf)
                        continue
                    rep.ok(R_END, w, "%s: exit implies |f(x) - degree| <= 0.02" % name, conf)
                    Xs, shp = ev[good[0][0]]
                    got = resolve(v, assume(resolve(v, last(ret, L, v)), c))

                    def dom(y, u, m):
                        if u is None:
                            return None
                        if y == dim.atom():
                            return float(1 + int(4.99 * u))
                        return 0.3 + 2.5 * u
                    e = power(dim, al)
                    if any(rnd.same(got, terms.power(X, e), dom, 60) for X in Xs):
                        rep.ok(R_ARG, where, "%s: returns the tested argument to the power of %s" % (name, show(e, 30)), conf)
                    elif Xs:
                        rep.judge(False, clear(got), R_ARG, where, "%s: returns %s, the estimate is evaluated at %s" % (name, show(got, 120), show(Xs[0], 80)), None, conf)
                    else:
                        S = [X for X in shp if rnd.same(got, terms.power(X, e), dom, 60)]
                        rep.judge(False, bool(S), R_ARG, where, "%s: the tested estimate is not always the one at the value returned, %s" % (name, show(got, 120)), None, conf)
            if not done:
                rep.undecided(R_END, name, "no loop whose exit tests a value of the degree function", conf)


def clear(t):
    return not [z for z in terms.atoms_of(t, deep=True) if z[0] in ("cyc", "val", "ldx", "lost", "undef", "edge", "fin")]


def argument(v, L, a, calls):
    """([arguments the estimate a was evaluated at, in terms of the header phis], tried ones), None: not an estimate"""
    if a in calls:
        return [resolve(v, arg(v, calls[a]))], []
    init, nxt = v.recur[a][1], v.recur[a][2]
    if not isinstance(init, terms.Poly) or not isinstance(nxt, terms.Poly):
        return None
    ci, cn = calls.get(init.atom()), calls.get(resolve(v, nxt).atom())
    if ci is None or cn is None:
        return None
    xi, xn = resolve(v, arg(v, ci)), resolve(v, arg(v, cn))
    # X(header phis) with X[initial values] = xi and X[next values] = xn
    phis = {p: r for p, r in v.recur.items() if r[0] is L and p != a}
    shp = shapes(phis)
    good = []
    for X in shp:
        at0 = terms.subst(X, lambda y: phis[y][1] if y in phis and isinstance(phis[y][1], terms.Poly) else None)
        at1 = terms.subst(X, lambda y: resolve(v, phis[y][2]) if y in phis and isinstance(phis[y][2], terms.Poly) else None)
        if same(at0, xi) and same(at1, xn):
            good.append(X)
    return good, shp


def same(x, y):
    return x == y or rnd.same(x, y, lambda z, u, m: None if u is None else 0.3 + 2.5 * u, 60)


def shapes(phis):
    """what the argument may be made of: a variable of the search or the middle of two"""
    ps = sorted(phis, key=str)
    return [(atom(p) + atom(q)) / P(2) for i, p in enumerate(ps) for q in ps[i + 1:]] + [atom(p) for p in ps]


def arg(v, c):
    return v.at(c.inst.ops[1], c.inst.bb)


def nkr(rep, tmp, conf, defs):
    M = units.build(tmp, "hgen", [units.SRC + "/hypergirgs/source/Generator.cpp"], defs)
    rep.unit("hypergirgs/source/Generator.cpp [%s]" % (" ".join(defs) or "debug"))
    fs = units.fns_like(M, "hypergirgs::calculateRadiusLikeNetworKit")
    if not fs:
        rep.undecided(R_NKR, "hypergirgs/source/Generator.cpp", "function not found", conf)
    for f in fs:
        v = fview.FView(f)
        n, al, T, deg = [v.term(a) for a in f.args]
        ret, where = retval(v)
        if not isinstance(ret, terms.Poly):
            rep.undecided(R_NKR, where, "no value", conf)
            continue
        Ls = loops_in(ret, v)
        if not Ls:
            rep.undecided(R_NKR, where, "no search loop", conf)
        for L in Ls:
            R0 = resolve(v, last(ret, L, v))
            for b, c in exits(v, L):
                if c is bdd.F:
                    continue
                R = assume(R0, c & bdd.eq0(T))
                xi = P(2) * al / (P(2) * al - P(1))
                G = P(2) / PI * xi * xi * n * (terms.exp(-R / P(2)) + terms.exp(-al * R) * (al * R / P(2) * (PI / P(4) / al / al - (PI - P(1)) / al + PI - P(2)) - P(1)))
                w = v.where(b.term)
                rest = around(c, deg.atom())
                ever, bad, odd = 0, None, False
                for k in range(60):
                    def base(y, u, m, k=k):
                        if u is None:
                            return None
                        if y == T.atom():
                            return 0.0
                        if y == n.atom():
                            return float(100 + int(1e5 * u ** 3))
                        if y == al.atom():
                            return 0.55 + 0.44 * u
                        if y[0] in ("k", "kx"):
                            return float(int(10 ** (5 * u)))
                        if y[0] == "phi":
                            return 8 + (1e-5 if k % 3 == 0 else 8) * u
                        return None
                    try:
                        m0 = rnd.Model(k, lambda y, u, m: 7.5 if y == deg.atom() and u is not None else base(y, u, m), True)
                        g = m0.poly(G)
                        tries = [7.5, 20.0] + [x + d for p in rest for x in (m0.poly(p), -m0.poly(p)) for d in (0.0, 0.0099, -0.0099, 0.0102, -0.0102, 0.05, -0.05, 0.5, -0.5)]
                        for x in tries:
                            if x <= 0:
                                continue
                            m = rnd.Model(k, lambda y, u, m, x=x: x if y == deg.atom() and u is not None else base(y, u, m), True)
                            if m.bdd(c):
                                ever += 1
                                if abs(g - x) > 0.01001 + 1e-9 * abs(g) and bad is None:
                                    bad = "left although the degree estimated for the radius returned differs by %.3g" % (g - x)
                    except (rnd.Undef, OverflowError, ZeroDivisionError, ValueError):
                        odd = True
                if odd or not ever:
                    rep.undecided(R_NKR, w, "condition not understood", conf)
                else:
                    rep.judge(bad is None, clear(R), R_NKR, w, bad and bad + ": " + show(R,200) or "", None, conf)


def around(c, a):
    """values of the atom at which the condition may change: roots of the linear terms in it"""
    out = []
    for l in bdd.support(c):
        if l[0] not in ("gt0", "igt0", "eq0"):
            continue
        for p in [l[1]] + [x for z in terms.atoms_of(l[1], deep=True) for x in z if isinstance(x, terms.Poly)]:
            if a not in terms.atoms_of(p, deep=True):
                continue
            k, r = fview.split_lin(p, a)
            if k is not None and isinstance(k, terms.Poly) and a not in terms.atoms_of(r, deep=True):
                q = -r / k
                if q not in out:
                    out.append(q)
    return out[:8]


def c27(rep, tmp, conf, defs):
    scaling(rep, tmp, conf, defs)
    nkr(rep, tmp, conf, defs)
