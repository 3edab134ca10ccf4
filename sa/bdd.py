"""Small ROBDD over hashable literals (canonical comparison atoms)."""
import terms
from math import gcd
from terms import Poly, P

_order = {}
_rev = []


class Node:
    __slots__ = ("v", "lo", "hi", "id")

    def __init__(self, v, lo, hi, i):
        self.v, self.lo, self.hi, self.id = v, lo, hi, i

    def __repr__(self):
        return show(self)

    def __and__(self, o):
        return ite(self, o, F)

    def __or__(self, o):
        return ite(self, T, o)

    def __invert__(self):
        return ite(self, F, T)


F = Node(1 << 60, None, None, 0)
T = Node(1 << 60, None, None, 1)
_tab = {}
_memo = {}


class TooBig(Exception):
    pass


def mk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _tab.get(k)
    if n is None:
        n = Node(v, lo, hi, len(_tab) + 2)
        _tab[k] = n
        if len(_tab) > 2000000:
            raise TooBig()
    return n


def ite(f, g, h):
    if f is T:
        return g
    if f is F:
        return h
    if g is h:
        return g
    if g is T and h is F:
        return f
    k = (f.id, g.id, h.id)
    r = _memo.get(k)
    if r is not None:
        return r
    v = min(f.v, g.v, h.v)
    lo = ite(*(x.lo if x.v == v else x for x in (f, g, h)))
    hi = ite(*(x.hi if x.v == v else x for x in (f, g, h)))
    r = mk(v, lo, hi)
    _memo[k] = r
    return r


def var(lit):
    i = _order.get(lit)
    if i is None:
        i = len(_rev)
        _order[lit] = i
        _rev.append(lit)
    return mk(i, F, T)


def support(f, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if f in (T, F) or f.id in seen:
        return out
    seen.add(f.id)
    l = _rev[f.v]
    if l not in out:
        out.append(l)
    support(f.lo, out, seen)
    support(f.hi, out, seen)
    return out


def single(f):
    """(literal, positive) if f is one literal"""
    if f is T or f is F:
        return None
    if f.lo is F and f.hi is T:
        return _rev[f.v], True
    if f.lo is T and f.hi is F:
        return _rev[f.v], False
    return None


def restrict(f, assign, memo=None):
    """assign: dict literal -> bool"""
    if memo is None:
        memo = {}
    if f is T or f is F:
        return f
    r = memo.get(f.id)
    if r is not None:
        return r
    l = _rev[f.v]
    if l in assign:
        r = restrict(f.hi if assign[l] else f.lo, assign, memo)
    else:
        r = mk(f.v, restrict(f.lo, assign, memo), restrict(f.hi, assign, memo))
    memo[f.id] = r
    return r


def compose(f, fn, memo=None):
    """replace every literal by the BDD fn(literal) (None keeps it)"""
    if memo is None:
        memo = {}
    if f is T or f is F:
        return f
    r = memo.get(f.id)
    if r is not None:
        return r
    l = _rev[f.v]
    c = fn(l)
    if c is None:
        c = var(l)
    r = ite(c, compose(f.hi, fn, memo), compose(f.lo, fn, memo))
    memo[f.id] = r
    return r


def subst_lit(l, g):
    if l[0] == "gt0":
        return gt0(g(l[1]))
    if l[0] == "igt0":
        return igt0(g(l[1]))
    if l[0] == "eq0":
        return eq0(g(l[1]))
    return var(tuple(terms._reb(x, g) for x in l))


def bdd_subst(f, g):
    """g: Poly -> Poly, applied to the terms inside the literals"""
    return compose(f, lambda l: subst_lit(l, g))


def exists(f, lits):
    for l in lits:
        f = restrict(f, {l: True}) | restrict(f, {l: False})
    return f


def implies(f, g):
    return ite(f, g, T) is T


def show_lit(l):
    if l[0] == "gt0":
        return "[%s > 0]" % terms.show(l[1])
    if l[0] == "igt0":
        return "[%s >i 0]" % terms.show(l[1])
    if l[0] == "eq0":
        return "[%s == 0]" % terms.show(l[1])
    return terms.show_any(l)


def show(f, limit=12):
    if f is T:
        return "true"
    if f is F:
        return "false"
    cubes = []

    def go(n, path):
        if len(cubes) > limit:
            return
        if n is F:
            return
        if n is T:
            cubes.append(" & ".join(path) or "true")
            return
        s = show_lit(_rev[n.v])
        go(n.hi, path + [s])
        go(n.lo, path + ["!" + s])
    go(f, [])
    return " | ".join(cubes[:limit]) + (" | ..." if len(cubes) > limit else "")


# ---------------------------------------------------------------- canonical comparison literals
POSITIVE = set()     # atom predicates: functions atom -> bool, registered by the checks


def is_pos_atom(a):
    if a[0] in ("e", "c", "pi", "inf", "cosh"):
        return True
    for f in POSITIVE:
        if f(a):
            return True
    return False


def strip_pos(p):
    """divide by the common monomial of known-positive atoms; scale the lead to +-1"""
    if not p.t:
        return p
    ms = list(p.t)
    common = None
    for m in ms:
        d = {a: e for a, e in m if is_pos_atom(a)}
        if common is None:
            common = d
        else:
            nc = {}
            for a, e in common.items():
                if a in d and type(e) == type(d[a]) and not isinstance(e, Poly):
                    nc[a] = min(e, d[a])
                elif a in d and isinstance(e, Poly) and d[a] == e:
                    nc[a] = e
            # an atom with negative exponent in one monomial and absent in the other: clear the denominator
            for a, e in d.items():
                if a not in common and not isinstance(e, Poly) and e < 0:
                    nc[a] = e
            for a, e in common.items():
                if a not in d and not isinstance(e, Poly) and e < 0:
                    nc[a] = e
            common = nc
    # negative exponents of atoms present in some monomials only
    for m in ms:
        for a, e in m:
            if is_pos_atom(a) and not isinstance(e, Poly) and e < 0:
                common[a] = min(common.get(a, 0) if not isinstance(common.get(a, 0), Poly) else 0, e)
    if common:
        k = Poly({frozenset((a, -e) for a, e in common.items()): terms.Fr(1)})
        p = p * k
    c = abs(p.lead())
    return p * P(1 / c)


def gt0(p):
    """p > 0 (real)"""
    c = p.const()
    if c is not None:
        return T if c > 0 else F
    if any(a == terms.INF for m in p.t for a, e in m):
        ms = [m for m in p.t if any(a == terms.INF for a, e in m)]
        if len(ms) == 1 and len(ms[0]) == 1 and not any(is_sym_inf(m) for m in p.t):
            return T if p.t[ms[0]] > 0 else F
    p = strip_pos(p)
    c = p.const()
    if c is not None:
        return T if c > 0 else F
    if p.is_mono() and all(is_pos_atom(a) for a, e in p.mono()[0]):
        return T if p.mono()[1] > 0 else F
    return var(("gt0", p))


def igt0(p):
    """p > 0 (integers)"""
    c = p.const()
    if c is not None:
        return T if c > 0 else F
    k = p.t.get(terms.ONE, terms.Fr(0))
    q = p - P(k)
    g = None
    for v in q.t.values():
        if v.denominator != 1:
            g = None
            break
        g = abs(v.numerator) if g is None else gcd(g, abs(v.numerator))
    if g and g > 1:
        q = q * P(terms.Fr(1, g))
        # g*q + k > 0  <=>  q > -k/g  <=>  q - floor(-k/g) > 0
        k = -terms.Fr((-k / g).__floor__())
    p = q + P(k)
    if q.lead() < 0:
        return ~var(("igt0", P(1) - p))
    return var(("igt0", p))


def is_sym_inf(m):
    return any(a[0] in INFTAGS for a, e in m)


INFTAGS = {"alpha", "mode", "arg", "ld"}


def eq0(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    ms = [m for m in p.t if m]
    if len(ms) == 1 and len(ms[0]) == 1:
        (a, e), = ms[0]
        if e == 1 and a[0] == "ite" and a[2].const() is not None and a[3].const() is not None:
            g, x, y = a[1:]                      # a choice between numbers
            k = P(p.t[ms[0]])
            r = p - k * terms.atom(a)
            return ite(g, eq0(k * x + r), eq0(k * y + r))
    c = p.lead()
    return var(("eq0", p * P(1 / c)))


def constrain(f, c):
    """generalised cofactor of f with respect to the care set c (c != F)"""
    memo = {}

    def go(f, c):
        if c is T or f is T or f is F:
            return f
        if c is F:
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        v = min(f.v, c.v)
        f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
        c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
        if c0 is F:
            r = go(f1, c1)
        elif c1 is F:
            r = go(f0, c0)
        elif f.v != v:
            r = go(f, c0 | c1)
        else:
            r = mk(v, go(f0, c0), go(f1, c1))
        memo[k] = r
        return r
    return go(f, c)
