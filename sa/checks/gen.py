"""Public generator functions of both libraries: edge buffering (C04), dimension dispatch (C13), sampling formulas (C14),
weight scaling (C15), inputs stay unmodified (C16)."""
import re
import bdd
import fview
import ir
import policy
import rnd
import terms
import units
from ir import Const, Inst
from terms import P, atom
from probe import Probe, judge_eq, opaque_atoms, show

PI = atom(("pi",))
CB = re.compile(r"operator\(\)\(int, int, int\)( const)?$")
LIB = {"girgs": "girgs/source/Generator.cpp", "hypergirgs": "hypergirgs/source/Generator.cpp"}
TREE = ("SpatialTree::SpatialTree", "SpatialTree::generateEdges", "HyperbolicTree::HyperbolicTree", "HyperbolicTree::generate")


def pol(n, d):
    return policy.default(n, d) or policy.qual(d).endswith(TREE) or bool(CB.search(d))


def load(rep, tmp, lib, defs, p=pol, extra=()):
    M = units.build(tmp, lib, [units.SRC + "/" + LIB[lib]], defs, list(extra), p)
    rep.unit("%s [%s]" % (LIB[lib], " ".join(defs) or "debug"))
    return M


def op(c):
    return c.q.split("::")[-1] if c.q and c.q.startswith("std::vector") else None


def args(v, c):
    return [v.num(v.at(o, c.inst.bb)) for o in c.inst.ops]


def api(M, name):
    fs = [f for f in M.fns.values() if not f.decl and policy.qual(f.dname) == name]
    return fs


# ------------------------------------------------------------------------------------------------- C13
def c13(rep, tmp, conf, defs):
    M = load(rep, tmp, "girgs", defs)
    fs = api(M, "girgs::generateEdges")
    rule = "positions of dimension k are sampled by SpatialTree<k>, k = 1..5, and by nothing else"
    for f in fs:
        v = fview.FView(f)
        sret = len(f.args) == 5
        W, X, A, S = [v.term(a) for a in f.args][1 if sret else 0:][:4]
        front = atom(("ld", X))
        b0, b1 = atom(("ld", front)), atom(("ld", front + P(8)))
        sites = []
        for c in v.calls():
            if not c.q:
                continue
            d = ir.demangle(c.callee)
            m = re.search(r"SpatialTree<(\d+)u", d)
            if m and c.q.endswith(("SpatialTree::SpatialTree", "SpatialTree::generateEdges")):
                sites.append((int(m.group(1)), c.q.split("::")[-1], c, v.full(c.inst.bb)))
        if not sites:
            rep.undecided(rule, f.dname[:60], "no sampler instantiation found", conf)
            continue
        rep.count("sampler call sites", len(sites))
        for k, nn in [(k, 100) for k in range(0, 9)] + [(k, nn) for k in range(1, 6) for nn in (2, 3, 17, 4096, 10**7)]:
            def dom(a, u, m):
                if a == b0.atom():
                    return 1000.0
                if a == b1.atom():
                    return 1000.0 + 8 * k
                if a == ("ld", X) or a == ("ld", W):
                    return 1e6
                if a == ("ld", W + P(8)):
                    return 1e6 + 8.0 * nn
                if a == ("ld", X + P(8)):
                    return 1e6 + 24.0 * nn
                return None
            m = rnd.Model(1, dom)
            hit = {}
            und = None
            for D, what, c, cond in sites:
                for l in bdd.support(cond):
                    for a in terms.atoms_of(("x", l)):
                        if a[0] in ("call", "val", "cyc", "ldx", "exit", "edge", "fin"):
                            und = a
                    if l[0] in ("exit", "edge", "fin"):
                        und = l
                try:
                    if m.bdd(cond):
                        hit.setdefault(what, []).append((D, c))
                except rnd.Undef:
                    und = "condition of %s" % what
            where = v.where(sites[0][2].inst)
            if und is not None:
                rep.undecided(rule, where, "condition depends on %s" % (und,), conf)
                break
            want = [k] if 1 <= k <= 5 else []
            for what in ("SpatialTree", "generateEdges"):
                got = [D for D, _ in hit.get(what, [])]
                rep.judge(got == want, True, rule, v.where(hit[what][0][1].inst) if hit.get(what) else where,
                          "dimension %d, %d points: %s of SpatialTree<%s> called" % (k, nn, what, got), None, conf)
        rule2 = "the sampler gets exactly the given weights, positions, alpha and seed"
        for D, what, c, cond in sites:
            a = args(v, c)
            if what == "SpatialTree":
                rep.judge(a[1:4] == [W, X, A], not any(opaque_atoms(x) for x in a[1:4]), rule2, v.where(c.inst),
                          "constructor of SpatialTree<%d> gets (%s)" % (D, ", ".join(show(x, 60) for x in a[1:4])), None, conf)
            else:
                rep.judge(a[1:2] == [S], not any(opaque_atoms(x) for x in a[1:2]), rule2, v.where(c.inst),
                          "generateEdges of SpatialTree<%d> gets seed %s" % (D, show(a[1], 60)), None, conf)
        # same object: constructed, then sampled
        for D in sorted({s[0] for s in sites}):
            ob = {s[1]: args(v, s[2])[0] for s in sites if s[0] == D}
            if len(ob) == 2:
                rep.judge(ob["SpatialTree"] == ob["generateEdges"], not any(opaque_atoms(x) for x in ob.values()), "the constructed tree is the one sampled",
                          "SpatialTree<%d>" % D, "different objects", None, conf)
    if not fs:
        rep.undecided(rule, LIB["girgs"], "girgs::generateEdges not found", conf)


# ------------------------------------------------------------------------------------------------- C14
class Draws:
    """random draws of a function: call atom -> (distribution kind, parameters, engine)"""

    def __init__(self, v):
        self.v = v
        self.ctor, self.draw, self.engine = {}, {}, {}
        for c in v.calls():
            if not c.q:
                continue
            a = args(v, c)
            parts = c.q.split("::")
            if len(parts) >= 3 and parts[1].endswith("_distribution"):
                if parts[-1] == parts[1]:
                    self.ctor.setdefault(a[0], []).append((parts[1], a[1:], c))
                elif parts[-1] == "operator()" and len(a) >= 2:
                    self.draw[atom_of(v, c)] = (a[0], a[1], c, a[2:])
            elif len(parts) >= 3 and parts[1].endswith("_engine") and parts[-1] == parts[1]:
                self.engine.setdefault(a[0], []).append((c, a[1:]))

    def params(self, at):
        """(kind, [a, b]) of the distribution a draw comes from"""
        obj, eng, c, extra = self.draw[at]
        cs = self.ctor.get(obj)
        if extra or not cs:
            return None
        ps = {(k, tuple(p)) for k, p, _ in cs}
        if len(ps) != 1:
            return None
        k, p = next(iter(ps))
        p = list(p)
        if k == "uniform_real_distribution":
            p += [P(0), P(1)][len(p):]
        return k, p


def atom_of(v, c):
    t = v.term(c.inst)
    return t.atom() if isinstance(t, terms.Poly) else None


def c14(rep, tmp, conf, defs):
    from fractions import Fraction as Fr
    M = load(rep, tmp, "girgs", defs)
    one(rep, M, "girgs::generateWeights", conf, ["n", "ple", "seed", "par"], [
        ("weight is ((n/2)^(1-ple) - 1) U + 1)^(1/(1-ple)), U uniform in [0,1)", "flat", lambda a, U: terms.power((terms.power(P(Fr(1, 2)) * a["n"], P(1) - a["ple"]) - P(1)) * U + P(1), P(1) / (P(1) - a["ple"])),
         lambda a: (P(0), P(1)), "result")])
    one(rep, M, "girgs::generatePositions", conf, ["n", "dim", "seed", "par"], [
        ("coordinate is uniform in [0,1)", "nested", lambda a, U: U, lambda a: (P(0), P(1)), "result")])
    M = load(rep, tmp, "hypergirgs", defs)
    rad = ("radius is acosh(V)/alpha, V uniform in [next(1), cosh(alpha R))", "flat", lambda a, U: atom(("acosh", U)) / a["alpha"],
           lambda a: (atom(("nextafter", P(1), P(2))), terms.even("cosh", a["alpha"] * a["R"])), "first")
    ang = ("angle is uniform in [0, 2 pi)", "flat", lambda a, U: U, lambda a: (P(0), P(2) * PI), "second")
    one(rep, M, "hypergirgs::sampleRadii", conf, ["n", "alpha", "R", "seed", "par"], [rad[:4] + ("result",)])
    one(rep, M, "hypergirgs::sampleAngles", conf, ["n", "seed", "par"], [ang[:4] + ("result",)])
    one(rep, M, "hypergirgs::sampleRadiiAndAngles", conf, ["n", "alpha", "R", "seed", "par"], [rad, ang])


def coordinates(v, buf, made, a):
    """(call, number of coordinates) which every position of the result is constructed with or resized to"""
    mk = made.get(buf, [])
    if len(mk) != 1:
        return None
    x = mk[0][1]
    if len(x) > 2 and len(made.get(x[2], [])) == 1:
        c, y = made[x[2]][0]
        return (c, y[1]) if len(y) > 1 else None
    found = []
    for key, cs in made.items():
        for c, y in cs:
            doms, cond = v.strip_dom(c.inst.bb)
            if len(doms) == 1 and key == atom(("ld", buf)) + P(24) * doms[0][0].K and len(y) > 1 and \
                    counted(doms[0][1], buf, None, made, None) == x[1] and cond_trivial(cond, a):
                found.append((c, y[1]))
    return found[0] if len(found) == 1 else None


def counted(n, buf, el, made, inner):
    """a number of iterations given as the size of the result or of a position: the size it was made with (None: not known)"""
    if n is None:
        return None
    for x, stride in ((buf, 8), (buf, 24), (el, 8)):
        if x is not None and n == (atom(("ld", x + P(8))) - atom(("ld", x))) / P(stride):
            if x is el:
                return inner[1] if inner else None
            mk = made.get(buf, [])
            return mk[0][1][1] if len(mk) == 1 and len(mk[0][1]) > 1 else None
    return n


def one(rep, M, name, conf, argn, outs):
    fs = api(M, name)
    if not fs:
        rep.undecided(outs[0][0], name, "function not found", conf)
        return
    f = fs[0]
    v = fview.FView(f)
    av = [v.num(v.term(a)) for a in f.args]
    ret, a = av[0], dict(zip(argn, av[1:]))
    dr = Draws(v)
    # vectors moved or copied into the result
    alias, made = {}, {}
    for c in v.calls():
        if op(c) in ("vector", "operator="):
            x = args(v, c)
            d = ir.demangle(c.callee)
            if len(x) >= 2 and re.search(r"::(vector|operator=)\(std::vector<.*>( const&|&&)\)$", d):
                alias[x[0]] = x[1]
            elif len(x) >= 2 and op(c) == "vector":
                made.setdefault(x[0], []).append((c, x))
        elif op(c) in ("resize", "assign"):
            x = args(v, c)
            made.setdefault(x[0], []).append((c, x))

    def canon(x):
        for _ in range(8):
            if x not in alias:
                break
            x = alias[x]
        return x
    bufs = {"result": canon(ret), "first": canon(ret), "second": canon(ret + P(24))}
    # stores of doubles inside loops
    sites = []
    for b in v.rpo:
        for i in b.insts:
            if i.op == "store" and i.ops[0].ty == "double" and v.loops_of(b):
                t = v.addr(i.ops[1], b)
                root = fview.rootval(i.ops[1])
                if isinstance(root, Inst) and root.op == "alloca":
                    continue
                sites.append((i, b, t, v.at(i.ops[0], b)))
    for rule, shape, form, rng, which in outs:
        buf = bufs[which]
        mine = []
        for i, b, t, val in sites:
            base = atom(("ld", buf))
            if shape == "nested":
                ok = any(x[0] == "ld" and buf.atom() in terms.atoms_of(x[1]) | ({x[1].atom()} if x[1].atom() else set()) for x in terms.atoms_of(t) if isinstance(x[1], terms.Poly))
            else:
                ok = base.atom() in terms.atoms_of(t)
            if ok:
                mine.append((i, b, t, val))
        where = v.where(mine[0][0]) if mine else f.dname[:60]
        if len(mine) != 1:
            rep.undecided(rule, where, "%d store sites into the result" % len(mine), conf)
            continue
        i, b, t, val = mine[0]
        rep.count("result stores")
        doms, cond = v.strip_dom(b)
        ks = [L.K for L, n in doms]
        # domain: every element exactly once
        r2 = "every element of the result is written exactly once"
        el = atom(("ld", buf)) + P(24) * ks[0]
        inner = coordinates(v, buf, made, a) if shape == "nested" else None
        Ns = [counted(n, buf, el if shape == "nested" else None, made, inner) for L, n in doms]
        und = [n for n in Ns if n is None] or [x for n in Ns if n is not None for x in opaque_atoms(n)]
        if shape == "flat":
            want = atom(("ld", buf)) + P(8) * ks[0]
            good = len(doms) == 1 and t == want and Ns[0] == a["n"]
        else:
            want = atom(("ld", atom(("ld", buf)) + P(24) * ks[0])) + P(8) * ks[-1]
            good = len(doms) == 2 and t == want and Ns == [a["n"], a["dim"]]
        # the guards may only restrict to non-empty domains
        free = cond_trivial(cond, a)
        if good and free:
            rep.ok(r2, where, "", conf)
        elif und or opaque_atoms(t):
            rep.undecided(r2, where, "domain %s" % [show(n) if n is not None else None for n in Ns], conf)
        else:
            rep.bad(r2, where, "element address %s, domain %s, condition %s" % (show(t), [show(n) for n in Ns], bdd.show(cond)), None, conf)
        # size of the buffer
        mk = made.get(buf, [])
        if len(mk) == 1:
            x = mk[0][1]
            rep.judge(x[1] == a["n"], not opaque_atoms(x[1]), "the result has n elements", v.where(mk[0][0].inst), "constructed with %s elements" % show(x[1]), None, conf)
            if shape == "nested":
                if inner:
                    rep.judge(inner[1] == a["dim"], not opaque_atoms(inner[1]), "every position has the requested dimension", v.where(inner[0].inst),
                              "constructed with %s coordinates" % show(inner[1]), None, conf)
                else:
                    rep.undecided("every position has the requested dimension", where, "construction not recognised", conf)
        else:
            rep.undecided("the result has n elements", where, "%d constructions" % len(mk), conf)
        # the value
        us = [x for x in terms.atoms_of(val) if x in dr.draw]
        if len(us) != 1:
            bad = opaque_atoms(val)
            if not us and not bad:
                rep.bad(rule, where, "the value does not depend on a random draw: %s" % show(val), None, conf)
            else:
                rep.undecided(rule, where, "%d draws in %s" % (len(us), show(val)), conf)
            continue
        U = us[0]
        pr = dr.params(U)
        lo, hi = rng(a)
        dc = dr.draw[U][2]
        free = {x.atom() for k, x in a.items() if k in ("alpha", "R")}
        r3 = "every element consumes its own draw"
        same = v.loopof.get(dc.inst.bb) is v.loopof.get(b)
        rep.judge(same, True, r3, v.where(dc.inst), "the draw is made in loop %s, the element is written in loop %s" % (v.loopof.get(dc.inst.bb), v.loopof.get(b)), None, conf)

        def dom(x, u, m):
            if u is None:
                return None
            if x == a["n"].atom():
                return float(3 + int(1e7 * u ** 4))
            if "ple" in a and x == a["ple"].atom():
                return 1.5 + 4 * u
            if x == U:
                return 1.0 + 1e4 * u ** 4 if which == "first" or "acosh" in rule else 0.9999 * u
            return 0.01 + 40 * u * u if x in free else None
        judge_eq(rep, rule, where, val, form(a, atom(U)), dom, conf, trials=100, allowed=(U,))
        r4 = "range of the draw: " + rule
        if pr is None:
            rep.undecided(r4, where, "distribution object not identified", conf)
        elif pr[0] != "uniform_real_distribution":
            rep.bad(r4, where, "the draw comes from std::%s" % pr[0], None, conf)
        else:
            for got, want, side in ((pr[1][0], lo, "lower"), (pr[1][1], hi, "upper")):
                judge_eq(rep, r4, where, got, want, None, conf, what=side + " end", trials=60)
        # engine: seeded from the seed argument and the thread number
        eng = dr.draw[U][1]
        r5 = "a non-negative seed s seeds thread t with s + t, a negative one with entropy"
        cs = dr.engine.get(eng, [])
        if not cs:
            rep.undecided(r5, where, "engine construction not found", conf)
        for c, x in cs:
            g = v.full(c.inst.bb)
            for sgn in (5.0, 0.0, -3.0):
                def ds(y, u, m, sgn=sgn):
                    return sgn if y == a["seed"].atom() else None
                try:
                    if not rnd.Model(1, ds).bdd(g):
                        continue
                except rnd.Undef:
                    continue
                s = x[0] if x else None
                if s is None:
                    rep.bad(r5, v.where(c.inst), "the engine is default-seeded", None, conf)
                elif sgn >= 0:
                    judge_eq(rep, r5, v.where(c.inst), s, a["seed"] + atom(("tid",)), ds, conf, what="seed %d" % sgn, trials=40, allowed=entropy(v))
                else:
                    dep = atom(("tid",)).atom() in terms.atoms_of(s) or a["seed"].atom() in terms.atoms_of(s)
                    isent = any(y[0] == "call" for y in terms.atoms_of(s))
                    rep.judge(isent, not isent, r5, v.where(c.inst), "negative seed gives %s" % show(s), None, conf)


def entropy(v):
    """calls that return entropy: understood, but never a function of the seed"""
    return tuple(atom_of(v, c) for c in v.calls() if c.q and c.q.startswith("std::random_device"))


def cond_trivial(cond, a):
    """the condition holds whenever the domain is non-empty"""
    if cond is bdd.T:
        return True
    allow = {x.atom() for x in a.values()}

    def dom(x, u, m):
        if u is None or x not in allow:
            return None
        if x == a["n"].atom():
            return float(1 + int(1e7 * u ** 4))
        if "dim" in a and x == a["dim"].atom():
            return float(1 + int(5 * u))
        if x == a["seed"].atom():
            return float(int(1e9 * (2 * u - 1) ** 3))
        return 0.01 + 40 * u * u
    for k in range(40):
        try:
            if not rnd.Model(k, dom).bdd(cond):
                return False
        except rnd.Undef:
            return False
    for m in rnd.edge_models(cond, bdd.T, dom):
        try:
            if not m.bdd(cond):
                return False
        except rnd.Undef:
            pass
    return True


# ------------------------------------------------------------------------------------------------- C15
def c15(rep, tmp, conf, defs):
    EST = ("estimateWeightScaling", "estimateWeightScalingThreshold")

    def p(n, d):
        return pol(n, d) or policy.qual(d).endswith(EST)
    M = load(rep, tmp, "girgs", defs, p)
    fs = api(M, "girgs::scaleWeights")
    rule = "scaleWeights returns the factor of the estimator that belongs to alpha"
    for f in fs:
        v = fview.FView(f)
        W, deg, dim, al = [v.term(x) for x in f.args]
        est = [c for c in v.calls() if c.q and c.q.endswith(EST)]
        thr = [c for c in v.calls() if c.callee in ("__cxa_throw",)]
        pr = Probe(M, f.name)
        pr.v = v
        ret = pr.ret()
        rep.count("estimator call sites", len(est))
        for x in (-1.0, 0.0, 0.5, 0.999, 1.0, 1.001, 2.5, 8.0, 8.001, 50.0, 1e30):
            def dom(y, u, m, x=x):
                return x if y == al.atom() else None
            m = rnd.Model(1, dom, True)
            want = "threshold" if x > 8 else "general" if x > 0 and x != 1 else "throw"
            try:
                hit = [c for c in est if m.bdd(v.rc_all(c.inst.bb) if hasattr(v, "rc_all") else v.full(c.inst.bb))]
                th = any(m.bdd(v.full(c.inst.bb)) for c in thr)
            except rnd.Undef:
                rep.undecided(rule, f.dname[:60], "condition not decidable at alpha = %g" % x, conf)
                continue
            kinds = ["threshold" if c.q.endswith("Threshold") else "general" for c in hit]
            got = "throw" if th and not kinds else kinds[0] if len(kinds) == 1 and not th else str(kinds)
            where = v.where((hit[0] if hit else (thr or est)[0]).inst)
            rep.judge(got == want, True, rule, where, "alpha = %g: the source takes '%s', required '%s'" % (x, got, want), None, conf)
            if want != "throw" and len(hit) == 1:
                c = hit[0]
                g = args(v, c)
                wa = [W, deg, dim] + ([al] if want == "general" else [])
                rep.judge(g == wa, not any(opaque_atoms(y) for y in g), "the estimator gets weights, degree, dimension and alpha unchanged", where,
                          "arguments (%s)" % ", ".join(show(y, 50) for y in g), None, conf)
                try:
                    same = rnd.close(m.poly(ret), m.poly(v.term(c.inst)))
                    rep.judge(same, not opaque_atoms(ret, ("call",)), rule, where, "alpha = %g: returned value is %s" % (x, show(ret)), None, conf)
                except (rnd.Undef, AttributeError):
                    rep.undecided(rule, where, "returned value", conf)
        # every weight is multiplied by the returned factor
        r2 = "every weight is multiplied by the returned factor, exactly once"
        st = [(i, b) for b in v.rpo for i in b.insts if i.op == "store" and i.ops[0].ty == "double"
              and atom(("ld", W)).atom() in terms.atoms_of(v.addr(i.ops[1], b))]
        tr = [c for c in v.calls() if c.q and c.q.startswith("std::") and any(x == atom(("ld", W)) for x in args(v, c))]
        if len(st) != 1 or tr:
            if not st and not tr and not any(x for c in v.calls() if c.q and not c.q.startswith("std::") and c not in est and c not in thr for x in [1]):
                rep.bad(r2, f.dname[:60], "no store into the weights", None, conf)
            else:
                rep.undecided(r2, f.dname[:60], "%d stores, %d library calls on the weights" % (len(st), len(tr)), conf)
        for i, b in st[:1] if len(st) == 1 and not tr else []:
            doms, cond = v.strip_dom(b)
            t = v.addr(i.ops[1], b)
            val = v.at(i.ops[0], b)
            old = atom(("ld", t))
            w = v.where(i)
            size = (atom(("ld", W + P(8))) - atom(("ld", W))) / P(8)
            okd = len(doms) == 1 and doms[0][1] is not None and rnd.same(doms[0][1], size, None, 30) and t == atom(("ld", W)) + P(8) * doms[0][0].K
            rep.judge(okd, all(n is not None and not opaque_atoms(n) for _, n in doms), r2, w,
                      "element %s over %s" % (show(t), [show(n) if n is not None else "?" for _, n in doms]), None, conf)
            if ret is not None:
                judge_eq(rep, r2, w, val, old * ret, lambda y, u, m: (0.5 if y == al.atom() else None), conf, allowed=("call",), what="new value")
                # only skipped when the estimator threw
                kk = doms[0][0].K.atom() if doms else None
                for x, n, k, wt in [(x, 10, 3, None) for x in (0.5, 2.0, 20.0)] + [(2.0, 1, 0, 1.0), (2.0, 10**6, 0, 1.0), (2.0, 10**6, 10**6 - 1, 1.0), (2.0, 10**6, 70000, 1.0),
                                    (2.0, 100, 50, 1e-9), (2.0, 100, 50, 0.5), (2.0, 100, 50, 1e3), (2.0, 100, 50, 1e12), (2.0, 100, 50, 1e100)]:
                    try:
                        m = rnd.Model(1, lambda y, u, mm, x=x: x if y == al.atom() else 0.0 if y == ("ld", W) else 8.0 * n if y == ("ld", W + P(8)) else
                                      wt if y == old.atom() and wt is not None else k if y == kk else None)
                        rep.judge(m.bdd(cond), True, r2, w, "not executed for alpha = %g, element %d of %d%s" % (x, k, n, " with weight %g" % wt if wt else ""), None, conf)
                    except rnd.Undef:
                        rep.undecided(r2, w, "condition", conf)
    if not fs:
        rep.undecided(rule, LIB["girgs"], "girgs::scaleWeights not found", conf)


# ------------------------------------------------------------------------------------------------- C04
DROP = ("clear",)
READ = ("size", "begin", "end", "cbegin", "cend", "empty", "data", "front", "back", "operator[]", "capacity", "at", "max_size", "get_allocator")
NEUTRAL = ("reserve", "shrink_to_fit", "~vector")


def c04(rep, tmp, conf, defs, lib):
    conf = "%s, %s" % (conf, lib)
    M = load(rep, tmp, lib, defs)
    fs = api(M, lib + "::generateEdges")
    r_app = "the callback appends the pair (u, v) to the buffer of its thread exactly once"
    r_loss = "a buffer is only cleared after all of its contents were copied to the result"
    r_dup = "contents copied to the result leave the buffer before they could be copied again"
    r_fin = "after sampling, every buffer is copied to the result completely, exactly once"
    if not fs:
        rep.undecided(r_app, LIB[lib], "generateEdges not found", conf)
        return
    f = fs[0]
    v = fview.FView(f)
    sret = v.term(f.args[0])
    cbs = [g for g in M.fns.values() if not g.decl and CB.search(g.dname)]
    gens = [c for c in v.calls() if c.q and c.q.endswith(("SpatialTree::generateEdges", "HyperbolicTree::generate"))]
    ctors = [c for c in v.calls() if c.q and c.q.endswith(("SpatialTree::SpatialTree", "HyperbolicTree::HyperbolicTree"))]
    used = {a for c in ctors for a in args(v, c)}
    # contents of closure objects: every pointer stored into a local object of generateEdges
    clos = {}
    for b in v.rpo:
        for i in b.insts:
            if i.op == "store":
                clos[v.addr(i.ops[1], b)] = v.num(v.at(i.ops[0], b))
    cbobj = [a for a in used if a.atom() and a.atom()[0] == "alloca"]
    cbobj = [a for a in cbobj if not any(a == args(v, c)[0] for c in ctors)]
    if len(cbs) != 1 or len(cbobj) != 1:
        rep.undecided(r_app, LIB[lib], "%d callbacks, %d callback objects" % (len(cbs), len(cbobj)), conf)
        return
    g = cbs[0]
    ob = cbobj[0]

    def ldmap(a):
        return clos.get(a)
    cv = fview.FView(g, args=[ob, None, None, None], ldmap=ldmap)
    U, V, T = [cv.term(x) for x in g.args[1:]]

    def flat(t):
        return t
    # --- callback
    ev = []
    unknown = []
    for b in cv.rpo:
        for i in b.insts:
            if i.op == "store" and not is_local(i.ops[1]):
                unknown.append((i, "store"))
            if i.op != "call":
                continue
            c = fview.Call()
            c.inst, c.callee = i, cv.callee(i)
            if c.callee and c.callee.startswith("llvm."):
                continue
            c.q = policy.qual(ir.demangle(c.callee)) if c.callee else None
            o = op(c)
            a = args(cv, c)
            if o in ("emplace_back", "push_back"):
                ev.append(("app", a[0], pair_of(cv, i, a[1:]), i))
            elif o == "insert" and len(a) == 4:
                ev.append(("ins", a[0], (a[1], a[2], a[3]), i))
            elif o == "resize" and len(a) >= 2 and a[1].const() is not None:
                if a[1].const() == 0:
                    ev.append(("clr", a[0], None, i))
                else:
                    rep.bad(r_app, cv.where(i), "the buffer is set to a length of %s: pairs are left behind, invented or lost" % show(a[1]), None, conf)
            elif o in DROP:
                ev.append(("clr", a[0], None, i))
            elif o in READ or o in NEUTRAL or o is None and c.q and c.q.startswith(("std::mutex", "std::lock_guard")) or c.q in ("std::mutex::lock", "std::mutex::unlock"):
                pass
            else:
                unknown.append((i, c.q or "indirect call"))
    where = LIB[lib] + " callback"
    apps = [e for e in ev if e[0] == "app"]
    if unknown:
        rep.undecided(r_app, cv.where(unknown[0][0]), "effect not understood: %s" % str(unknown[0][1])[:80], conf)
        return
    if not apps:
        rep.bad(r_app, where, "the callback appends nothing", None, conf)
        return
    buf = apps[0][1]
    where = cv.where(apps[0][3])
    rep.count("buffer operations", len(ev))
    for e in apps:
        rep.judge(e[2] == (U, V), e[2] is not None and not any(opaque_atoms(x) for x in e[2]), r_app, cv.where(e[3]),
                  "appended value is %s, the edge is (u, v)" % (tuple(show(x, 60) for x in e[2]) if e[2] else None,), None, conf)
    cst, rest = fview.split_lin(buf, T.atom())
    stride = cst.const() if cst is not None else None
    if all(e[1] == buf for e in apps) and stride and stride >= 24:
        rep.ok("each thread has its own buffer", where, "stride %d bytes" % stride, conf)
    elif cst is not None and not cst.t and not opaque_atoms(buf):
        rep.bad("each thread has its own buffer", where, "the buffer address %s does not depend on the thread" % show(buf), None, conf)
    else:
        rep.undecided("each thread has its own buffer", where, show(buf), conf)
    # states of the buffer on every control flow path
    flow(rep, cv, ev, buf, sret, (r_app, r_loss, r_dup), conf)
    # --- the function itself
    base = rest
    vecs = [a for a in clos.values() if base is not None and base == atom(("ld", a))]
    ins = []
    for c in v.calls():
        o = op(c)
        a = args(v, c)
        if o == "insert" and a[0] == sret:
            ins.append((c, a))
        elif a[:1] == [sret] and o and o not in READ + NEUTRAL + ("vector", "reserve"):
            if gens and any(v.dominates(gc.inst.bb, c.inst.bb) for gc in gens) or o in ("clear", "resize", "erase", "pop_back", "swap"):
                rep.undecided(r_fin, v.where(c.inst), "result modified by %s" % o, conf)
    where = v.where(ins[0][0].inst) if ins else f.dname[:50]
    good = []
    for c, a in ins:
        doms, cond = v.strip_dom(c.inst.bb)
        if len(doms) != 1 or doms[0][1] is None:
            rep.undecided(r_fin, v.where(c.inst), "loop not understood", conf)
            return
        K, N = doms[0][0].K, doms[0][1]
        el = (base + P(stride or 0) * K) if base is not None and stride else None
        n = None
        if vecs:
            n = (atom(("ld", vecs[0] + P(8))) - atom(("ld", vecs[0]))) / P(stride)
        ok = el is not None and a[2] == atom(("ld", el)) and a[3] == atom(("ld", el + P(8))) and n is not None and rnd.same(N, n, None, 20)
        if not ok:
            und = any(opaque_atoms(x) for x in a[2:4]) or opaque_atoms(N) or el is None or not vecs
            msg = "copied range [%s, %s) for k < %s; required the whole buffer k of all %s buffers" % (show(a[2], 80), show(a[3], 80), show(N, 80), show(n, 80) if n is not None else "?")
            if und:
                rep.undecided(r_fin, v.where(c.inst), msg, conf)
            else:
                rep.bad(r_fin, v.where(c.inst), msg, None, conf)
            return
        good.append((c, cond))
    if not good:
        loops = [c for c in v.calls() if c.q and not c.q.startswith("std::") and c not in gens + ctors]
        if any(CB.search(ir.demangle(c.callee or "")) is None and c.callee for c in loops if c.q):
            rep.undecided(r_fin, where, "final copy not found, unknown calls present", conf)
        else:
            rep.bad(r_fin, f.dname[:60], "no copy of the buffers to the result after sampling", None, conf)
        return
    # executed once after every sampling
    for gc in gens:
        gcond = v.full(gc.inst.bb)
        after = [x for x in good if reaches(v, gc.inst.bb, x[0].inst.bb) and not reaches(v, x[0].inst.bb, gc.inst.bb)]
        tot = bdd.F
        for c, cond in after:
            tot = tot | cond
        if len(after) == 1 and el is not None:                 # an empty buffer need not be copied
            d = atom(("ld", el + P(8))) - atom(("ld", el))
            for x in (d, d / P(stride)):
                tot = tot | bdd.eq0(x) | ~bdd.gt0(x) | ~bdd.igt0(x)
        miss = gcond & ~tot
        if len(after) == 1 and implied(gcond, tot):
            rep.ok(r_fin, where, ir.demangle(gc.callee)[:60], conf)
        elif not after:
            rep.bad(r_fin, v.where(gc.inst), "the buffers are not copied after this sampler ran", None, conf)
        elif len(after) > 1:
            rep.bad(r_fin, where, "the buffers are copied %d times" % len(after), None, conf)
        else:
            bad = [l for l in bdd.support(miss) if l[0] in ("edge", "exit", "fin")]
            (rep.undecided if bad else rep.bad)(r_fin, where, "not executed when %s" % bdd.show(miss), *([conf] if bad else [None, conf]))
    # enough buffers
    r_n = "there is one buffer per possible thread"
    mk = [(c, args(v, c)) for c in v.calls() if op(c) in ("vector", "resize") and args(v, c)[0] in vecs]
    if len(mk) == 1:
        x = mk[0][1][1]
        few, odd = None, bool(opaque_atoms(x)) and x.atom() != ("maxthreads",)
        for mt in (1, 2, 3, 8, 64, 1000):
            for other in (1, 2, 16, 512):
                try:
                    got = rnd.Model(1, lambda a, u, m: float(mt) if a == ("maxthreads",) else float(other) if a in (("numprocs",), ("team",)) else 0.0 if a == ("tid",) else None).poly(x)
                    if got < mt and few is None:
                        few = "%s buffers are created: %d for up to %d threads" % (show(x), got, mt)
                except rnd.Undef:
                    odd = True
        rep.judge(few is None and not odd, not odd, r_n, v.where(mk[0][0].inst), few or show(x), None, conf)
    else:
        rep.undecided(r_n, where, "construction of the buffers not recognised", conf)


def implied(a, b):
    return (a & ~b) is bdd.F


def reaches(v, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        for s in v.succ[x]:
            if s is b:
                return True
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def is_local(p):
    r = fview.rootval(p)
    return isinstance(r, Inst) and r.op == "alloca"


def pair_of(v, call, refs):
    """the pair appended: two references to locals, or one reference to a local pair"""
    def content(a, off, size):
        for s in reversed([i for b in v.rpo for i in b.insts if i.op == "store"]):
            d = v.addr(s.ops[1], s.bb) - a
            c = d.const()
            if c is None:
                continue
            t = v.num(v.at(s.ops[0], s.bb))
            if c == off and s.x["size"] == size:
                return t
            if c == 0 and s.x["size"] == 8 and size == 4:
                return fview.halves(t)[off // 4]
        return None

    def deref(a):
        at = a.atom()
        if at and at[0] == "alloca":
            return content(a, 0, 4)
        return None
    if len(refs) == 2:
        r = tuple(deref(a) for a in refs)
    elif len(refs) == 1:
        r = (content(refs[0], 0, 4), content(refs[0], 4, 4))
    else:
        return None
    return None if any(x is None for x in r) else r


def flow(rep, v, ev, buf, res, rules, conf):
    """typestate of the buffer over all control-flow paths of the callback.
    state = (appends so far: 0, 1, 2), content: d = not copied, p = copied and still in the buffer, e = empty"""
    r_app, r_loss, r_dup = rules
    at = {}
    for e in ev:
        at.setdefault(e[3].bb, []).append(e)
    for b in at:
        at[b].sort(key=lambda e: e[3].idx)
    inn = {v.rpo[0]: {(0, "d")}}
    out = {}
    bad = {}
    ch = True
    while ch:
        ch = False
        for b in v.rpo:
            st = set(inn.get(b, ()))
            for p in v.pred[b]:
                st |= out.get(p, set())
            for e in at.get(b, ()):
                ns = set()
                for n, s in st:
                    if e[0] == "app":
                        if e[1] != buf:
                            bad[(r_app, "another buffer")] = e[3]
                        if s == "p":
                            bad[(r_dup, "an edge is appended while copied edges are still in the buffer")] = e[3]
                        ns.add((min(n + 1, 2), "d"))
                    elif e[0] == "ins":
                        pos, lo, hi = e[2]
                        if lo == atom(("ld", buf)) and hi == atom(("ld", buf + P(8))) and e[1] == res:
                            if s == "p":
                                bad[(r_dup, "the buffer is copied twice")] = e[3]
                            ns.add((n, "p" if s != "e" else "e"))
                        else:
                            bad[(r_loss, "copied range [%s, %s) into %s is not the whole buffer into the result" % (show(lo, 80), show(hi, 80), show(e[1], 60)))] = e[3]
                            ns.add((n, s))
                    elif e[0] == "clr":
                        if e[1] == buf:
                            if s == "d":
                                bad[(r_loss, "cleared although edges were not copied to the result")] = e[3]
                            ns.add((n, "e"))
                        else:
                            bad[(r_loss, "clears %s" % show(e[1], 80))] = e[3]
                            ns.add((n, s))
                st = ns
            if out.get(b) != st:
                out[b] = st
                ch = True
    fin = set()
    for b in v.rpo:
        if b.term.op == "ret":
            fin |= out.get(b, set())
    last = v.where(ev[0][3])
    if any(n != 1 for n, s in fin):
        bad[(r_app, "a path through the callback appends %s times" % sorted({n for n, s in fin}))] = ev[0][3]
    if any(s == "p" for n, s in fin):
        bad[(r_dup, "the callback returns with copied edges still in the buffer")] = ev[0][3]
    # correlated conditions make some of the joined paths infeasible: only single-condition callbacks are decided
    lits = set()
    for e in ev:
        lits |= set(bdd.support(v.rc(e[3].bb)))
    for r in rules:
        mine = [(k, i) for k, i in bad.items() if k[0] == r]
        if not mine:
            rep.ok(r, last, "", conf)
        for k, i in mine:
            corr = infeasible(v, ev)
            if corr or opaque_atoms(buf):
                rep.undecided(r, v.where(i), k[1] + " (conditions are correlated)", conf)
            else:
                rep.bad(r, v.where(i), k[1], None, conf)


def infeasible(v, ev):
    """two separate branches test the same literal"""
    seen = {}
    for b in v.rpo:
        if len(v.succ[b]) > 1:
            for l in bdd.support(v.edge_cond(b, v.succ[b][0])):
                if l in seen and seen[l] is not b:
                    return True
                seen[l] = b
    return False


# ------------------------------------------------------------------------------------------------- C16
def c16(rep, tmp, conf, defs):
    import effects
    for lib, names in (("girgs", {"girgs::generateEdges": (0, 1), "girgs::saveDot": (0, 1, 2, 3)}), ("hypergirgs", {"hypergirgs::generateEdges": (0, 1)})):
        srcs = [units.SRC + "/" + LIB[lib]]
        if lib == "hypergirgs":
            srcs += [units.SRC + "/hypergirgs/source/RadiusLayer.cpp", units.SRC + "/hypergirgs/source/AngleHelper.cpp"]
        for par in ([], ["-fopenmp"]):
            M = units.build(tmp, "eff" + lib, srcs, defs, par, policy.with_sort)
            rep.unit("%s (whole library) [%s %s]" % (lib, " ".join(defs) or "debug", " ".join(par)))
            for n, idx in names.items():
                for f in api(M, n):
                    for k in idx:
                        effects.unmodified(rep, M, f, k, "%s does not modify its input %d" % (n, k), conf)
    M = units.build(tmp, "effw", [units.SRC + "/girgs/source/WeightScaling.cpp"], defs)
    rep.unit("girgs/source/WeightScaling.cpp [%s]" % (" ".join(defs) or "debug"))
    for n in ("girgs::estimateWeightScaling", "girgs::estimateWeightScalingThreshold"):
        for f in api(M, n):
            effects.unmodified(rep, M, f, 0, "%s does not modify its input %d" % (n, 0), conf)
