"""Helpers for checks that compare what a function computes with the required closed form."""
import bdd
import fview
import rnd
import terms
from terms import Poly, P, atom


class Probe:
    """one function of an analysis unit: argument atoms, returned value"""

    def __init__(self, M, name, ldmap=None):
        self.M, self.name = M, name
        self.fn = M.fns.get(name)
        self.ok = self.fn is not None and not self.fn.decl
        if self.ok:
            self.v = fview.FView(self.fn, ldmap=ldmap)
            self.sid = self.v.sid
            self.a = [self.v.term(x) for x in self.fn.args]

    def ret(self):
        rets = [(i, b) for b in self.v.rpo for i in b.insts if i.op == "ret" and i.ops]
        if not rets:
            return None
        if len(rets) == 1:
            return self.v.at(rets[0][0].ops[0], rets[0][1])
        r = None
        for i, b in rets:
            t = self.v.at(i.ops[0], b)
            if r is None:
                r = t
            elif isinstance(t, Poly):
                r = terms.ite(self.v.full(b), t, r)
            else:
                r = bdd.ite(self.v.full(b), t, r)
        return r

    def where(self):
        """first source line of the repository inside the probe"""
        for i in self.fn.insts():
            w = fview.where(i)
            if "source/" in w:
                return w
        return self.name


OPAQUE = ("val", "ldx", "cyc", "undef", "lost", "kx", "call", "fin", "phi", "rmw", "edge", "exit", "xv", "inv0")


def opaque_atoms(t, allowed=()):
    """atoms the analysis does not understand; a mismatch that involves them is not a definite violation"""
    at = set()
    if isinstance(t, Poly):
        at = terms.atoms_of(t)
    else:
        for l in bdd.support(t):
            if l[0] not in ("gt0", "igt0", "eq0"):
                at.add(l)
            at |= terms.atoms_of(("x", l))
    return [a for a in at if a[0] in OPAQUE and a not in allowed and a[0] not in allowed]


def polarity(c):
    """(literal kind, polarity) if the condition is one comparison"""
    s = bdd.single(c) if not isinstance(c, Poly) else None
    return s


def judge_eq(rep, rule, where, got, want, dom=None, conf=None, key=None, trials=60, care=None, allowed=(), what=""):
    """obligation: the term extracted from the source denotes the required function"""
    if got is None:
        rep.undecided(rule, where, "no value extracted", conf)
        return False
    if isinstance(got, Poly) != isinstance(want, Poly):
        if isinstance(got, Poly) and got.const() is not None:
            got = bdd.T if got.const() else bdd.F
        elif isinstance(got, Poly):
            got = ~bdd.eq0(got)
        else:
            got = terms.ite(got, P(1), terms.ZERO)
    if rnd.same(got, want, dom, trials, care):
        rep.ok(rule, where, what, conf)
        return True
    bad = opaque_atoms(got, allowed)
    if bad:
        rep.undecided(rule, where, "%s: not understood: %s" % (what, ", ".join(terms.show_atom(a)[:60] for a in bad[:4])), conf)
        return False
    rep.bad(rule, where, "%s: the source computes %s; required %s (%s)" % (what, show(got), show(want), rnd.counter(got, want, dom, trials, care)), key, conf)
    return False


def show(t, n=300):
    s = terms.show(t) if isinstance(t, Poly) else bdd.show(t)
    return s if len(s) <= n else s[:n] + "..."


def judge_strict(rep, rule, where, got, want, dom=None, conf=None, what="", trials=60):
    """obligation: a single comparison with the same strictness and the same sign as the required one"""
    g, w = bdd.single(got), bdd.single(want)
    if got == want or got is want:
        rep.ok(rule, where, what, conf)
        return True
    if not rnd.same(got, want, dom, trials):
        return judge_eq(rep, rule, where, got, want, dom, conf, None, trials, what=what)
    if g and w and g[0][0] == w[0][0] == "gt0":
        if g[1] == w[1]:
            rep.ok(rule, where, what, conf)
            return True
        rep.bad(rule, where, "%s: the comparison treats equality differently: %s, required %s" % (what, show(got), show(want)), None, conf)
        return False
    rep.undecided(rule, where, what + ": not a single comparison", conf)
    return False
