"""Canonical symbolic terms.

A value is a Laurent polynomial over atoms with rational coefficients; exponents may be symbolic (pow, exp, shifts).
Integers and floating point numbers share the representation: the analyses decide which real-valued function is
computed, rounding and wrap-around are outside their scope (stated in DESIGN.md).
Booleans are reduced ordered BDDs over canonical comparison atoms.
"""
from fractions import Fraction as Fr
import functools

ONE = frozenset()


class Poly:
    __slots__ = ("t", "_h", "_r", "_f")

    def __init__(self, t):
        self.t = t            # dict monomial -> Fraction (no zeros)
        self._h = None
        self._r = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const(self):
        return self.t.get(ONE, Fr(0)) if self.is_const() else None

    def is_mono(self):
        return len(self.t) == 1

    def flat(self):
        """(float coefficient, exact?, factors, all exponents 1) per monomial, for evaluation"""
        try:
            return self._f
        except AttributeError:
            pass
        out, frac = [], False
        for m, c in self.t.items():
            fs, lin = [], True
            for a, e in m:
                k = e if isinstance(e, Poly) else float(e)
                if k != 1 if not isinstance(e, Poly) else True:
                    lin = False
                if a == ("e",):
                    a, lin = None, False
                fs.append((a, k))
            frac = frac or c.denominator != 1
            out.append((float(c), tuple(fs), lin))
        self._f = (tuple(out), frac)
        return self._f

    def mono(self):
        (m, c), = self.t.items()
        return m, c

    def atom(self):
        """the atom if the term is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                (a, e), = m
                if e == 1:
                    return a
        return None

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o if isinstance(o, Poly) else P(-o))

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = P(o)
        if len(self.t) * len(o.t) > 4000:
            return P(("mul", self, o))
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k, f = mmul(m, n)
                v = t.get(k, 0) + c * d * f
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return Poly(t)

    def inv(self):
        if self.is_mono():
            m, c = self.mono()
            return Poly({frozenset((a, -e) for a, e in m): 1 / c})
        if not self.t:
            return P(("inv0",))
        # factor out a canonical leading coefficient so that equal functions meet
        lc = self.lead()
        return Poly({frozenset([(("sum", self * P(1 / lc)), Fr(-1))]): 1 / lc})

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = P(o)
        return self * o.inv()

    def lead(self):
        k = min(self.t, key=mkey)
        return self.t[k]

    def __repr__(self):
        return show(self)


def mmul(m, n):
    if not m:
        return n, 1
    if not n:
        return m, 1
    d = dict(m)
    f = 1
    for a, e in n:
        if a in d:
            s = eadd(d[a], e)
            if s == 0 if not isinstance(s, Poly) else not s.t:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    return frozenset(d.items()), f


def eadd(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        r = (a if isinstance(a, Poly) else P(a)) + (b if isinstance(b, Poly) else P(b))
        c = r.const()
        return c if c is not None else r
    return a + b


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fr)):
        return Poly({ONE: Fr(x)}) if x else Poly({})
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return atom(("inf",)) if x > 0 else -atom(("inf",)) if x < 0 else atom(("nan",))
        # pi and its multiples are recognised symbolically
        for k in (1, 2, Fr(1, 2), Fr(1, 4), 4, -1, -2):
            if x == float(k) * 3.141592653589793:
                return Poly({frozenset([(("pi",), Fr(1))]): Fr(k)})
        for k in (1, Fr(1, 2), 2):
            if x == float(k) / 3.141592653589793:
                return Poly({frozenset([(("pi",), Fr(-1))]): Fr(k)})
        return Poly({ONE: Fr(x)}) if x else Poly({})
    if isinstance(x, tuple):
        return atom(x)
    raise TypeError(x)


def atom(a):
    return Poly({frozenset([(a, Fr(1))]): Fr(1)})


ZERO = P(0)
INF = ("inf",)


def power(b, e):
    """b ** e for Poly b, e"""
    if not isinstance(e, Poly):
        e = P(e)
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) <= 16:
        c = int(c)
        if c == 0:
            return P(1)
        r = P(1)
        for _ in range(abs(c)):
            r = r * b
        return r if c > 0 else r.inv()
    if not b.t:
        return P(("pow", b, e))
    bc = b.const()
    if bc is not None:
        if bc == 1:
            return P(1)
        return constpow(bc, e)
    if b.is_mono():
        m, co = b.mono()
        r = P(1) if co == 1 else constpow(co, e)
        for a, k in m:
            ne = (k if isinstance(k, Poly) else P(k)) * e
            nc = ne.const()
            r = r * Poly({frozenset([(a, nc if nc is not None else ne)]): Fr(1)})
        return r
    return Poly({frozenset([(("sum", b), c if c is not None else e)]): Fr(1)})


def constpow(c, e):
    """c**e, split the constant part of e; prime base 2 is kept as base 2"""
    r = P(1)
    k = 0
    x = c
    if x > 0:
        while x != 0 and x.numerator % 2 == 0:
            x /= 2
            k += 1
        while x.denominator % 2 == 0:
            x *= 2
            k -= 1
    if k:
        r = r * _basepow(2, e * P(k))
    if x != 1:
        r = r * _basepow(x, e)
    return r


def _basepow(b, e):
    ec = e.t.get(ONE, Fr(0))
    whole = ec.numerator // ec.denominator
    rest = e - P(whole)
    r = P(Fr(b) ** whole) if abs(whole) < 4096 else None
    if r is None:
        return Poly({frozenset([(("c", Fr(b)), e)]): Fr(1)})
    if rest.t:
        rc = rest.const()
        r = r * Poly({frozenset([(("c", Fr(b)), rc if rc is not None else rest)]): Fr(1)})
    return r


def exp(e):
    if not e.t:
        return P(1)
    c = e.const()
    return Poly({frozenset([(("e",), c if c is not None else e)]): Fr(1)})


def log(b):
    """natural logarithm; logs of monomials are expanded"""
    c = b.const()
    if c is not None and c == 1:
        return ZERO
    if b.is_mono():
        m, co = b.mono()
        r = ZERO
        if co != 1:
            if co <= 0:
                return atom(("log", b))
            x, k = co, 0
            while x.numerator % 2 == 0:
                x /= 2
                k += 1
            while x.denominator % 2 == 0:
                x *= 2
                k -= 1
            if k:
                r = r + atom(("log", P(2))) * P(k)
            if x != 1:
                r = r + atom(("log", P(x)))
        for a, e in m:
            e = e if isinstance(e, Poly) else P(e)
            if a == ("e",):
                r = r + e
            elif a[0] == "c":
                r = r + atom(("log", P(a[1]))) * e
            elif a[0] == "sum":
                r = r + atom(("log", a[1])) * e
            else:
                r = r + atom(("log", atom(a))) * e
        return r
    return atom(("log", b))


def absolute(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    lc = p.lead()
    q = p if lc > 0 else -p
    # |c*q| = |c|*|q|
    g = abs(q.lead())
    q = q * P(1 / g)
    if q.is_mono():
        a = q.atom()
        if a and a[0] in ("abs", "uninit"):
            return q * P(g)
    return atom(("abs", q)) * P(g)


def _mm(kind, args):
    flat = []
    for a in args:
        x = a.atom()
        if x and x[0] == kind:
            flat.extend(x[1])
        else:
            flat.append(a)
    s = set(flat)
    cs = [a.const() for a in s if a.const() is not None]
    if len(cs) > 1:
        best = max(cs) if kind == "max" else min(cs)
        s = {a for a in s if a.const() is None} | {P(best)}
    if len(s) == 1:
        return next(iter(s))
    # a constant difference decides
    l = list(s)
    drop = set()
    for i in range(len(l)):
        for j in range(i + 1, len(l)):
            d = (l[i] - l[j]).const()
            if d is not None:
                if (d > 0) == (kind == "max"):
                    drop.add(l[j])
                else:
                    drop.add(l[i])
    s -= drop
    if len(s) == 1:
        return next(iter(s))
    return atom((kind, frozenset(s)))


def maximum(*a):
    return _mm("max", a)


def minimum(*a):
    return _mm("min", a)


def even(name, p):
    c = p.const()
    if c is not None and c == 0 and name in ("cos", "cosh"):
        return P(1)
    return atom((name, p if not p.t or p.lead() > 0 else -p))


def odd(name, p):
    if not p.t:
        return ZERO
    return atom((name, p)) if p.lead() > 0 else -atom((name, -p))


# ------------------------------------------------------------------------------------------------- printing, keys
def akey(a):
    return show_atom(a)


@functools.lru_cache(None)
def mkey(m):
    # order: shortest text first makes a stable, deterministic canonical lead
    s = sorted((show_atom(a), show_exp(e)) for a, e in m)
    return (len(s), s)


def show_exp(e):
    return str(e) if not isinstance(e, Poly) else show(e)


def show(p):
    if p._r is not None:
        return p._r
    if not p.t:
        p._r = "0"
        return "0"
    out = []
    for m in sorted(p.t, key=mkey):
        c = p.t[m]
        fs = ["%s" % show_atom(a) if e == 1 else "%s^%s" % (show_atom(a), show_exp(e) if not isinstance(e, Poly) else "(" + show(e) + ")")
              for a, e in sorted(m, key=lambda x: show_atom(x[0]))]
        if c != 1 or not fs:
            fs = [str(c) if c.denominator < 10**6 else repr(float(c))] + fs
        out.append("*".join(fs))
    p._r = " + ".join(out)
    return p._r


_sa = {}


def show_atom(a):
    r = _sa.get(a)
    if r is not None:
        return r
    if a[0] in ("max", "min"):
        r = "%s(%s)" % (a[0], ", ".join(sorted(show(x) for x in a[1])))
    else:
        r = a[0]
        if len(a) > 1:
            r += "(" + ", ".join(show_any(x) for x in a[1:]) + ")"
    _sa[a] = r
    return r


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            return show_atom(x)
        return "(" + ", ".join(show_any(y) for y in x) + ")"
    if not isinstance(x, (str, int, float, Fr, frozenset)) and hasattr(x, "lo"):
        import bdd
        return bdd.show(x)
    if isinstance(x, frozenset):
        return "{" + ", ".join(sorted(show_any(y) for y in x)) + "}"
    return str(x)


# ------------------------------------------------------------------------------------------------- substitution
def subst(p, f, memo=None):
    """rebuild p bottom-up; f(atom) -> Poly or None (keep). Atom arguments are substituted first."""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            b = subst_atom(a, f, memo)
            if isinstance(e, Poly):
                q = q * power(b, subst(e, f, memo))
            else:
                q = q * (b if e == 1 else power(b, P(e)))
        out = out + q
    memo[p] = out
    return out


def subst_atom(a, f, memo):
    k = ("a", a)
    r = memo.get(k)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        r = rebuild(a, lambda x: subst(x, f, memo))
        b = r.atom() if isinstance(r, Poly) else None
        if b is not None and b != a:
            r2 = f(b)
            if r2 is not None:
                r = r2
    memo[k] = r
    return r


def rebuild(a, g):
    t = a[0]
    if t == "max":
        return maximum(*[g(x) for x in a[1]])
    if t == "min":
        return minimum(*[g(x) for x in a[1]])
    if t == "abs":
        return absolute(g(a[1]))
    if t == "log":
        return log(g(a[1]))
    if t in ("cos", "cosh"):
        return even(t, g(a[1]))
    if t in ("sin", "sinh", "asinh", "tanh"):
        return odd(t, g(a[1]))
    if t == "sum":
        return g(a[1])
    if t == "pow":
        return power(g(a[1]), g(a[2]))
    if t == "ite":
        from bdd import bdd_subst
        return ite(bdd_subst(a[1], g), g(a[2]), g(a[3]))
    if t == "fdiv":
        return g(a[1]) / g(a[2])
    if len(a) == 1:
        return atom(a)
    return atom(tuple(_reb(x, g) for x in a))


def _reb(x, g):
    if isinstance(x, Poly):
        return g(x)
    if isinstance(x, tuple):
        return tuple(_reb(y, g) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_reb(y, g) for y in x)
    return x


def ite(c, a, b):
    import bdd
    if c is bdd.T:
        return a
    if c is bdd.F:
        return b
    if a == b:
        return a
    at = bdd.single(c)
    if at is not None:
        lit, pos = at
        x, y = (a, b) if pos else (b, a)      # literal true -> x
        if lit[0] in ("gt0", "igt0"):
            d = lit[1]
            for s in ((0, 1) if lit[0] == "igt0" else (0,)):
                k = _prop(d - P(s), x - y)
                if k:
                    return maximum(x, y) if k > 0 else minimum(x, y)
            # strict integer comparison seen from the other side: d - 1 >= 0
            if lit[0] == "igt0":
                k = _prop(d - P(1), y - x)
                if k and k > 0:
                    return minimum(x, y)
            if x == -y:
                for s in ((0, 1) if lit[0] == "igt0" else (0,)):
                    k = _prop(d - P(s), x)
                    if k:
                        return absolute(x) if k > 0 else -absolute(x)
        if lit[0] == "eq0" and _prop(lit[1], x - y):
            return y                           # x == y ? x : y
    # put the two-way choice into a canonical polarity
    return atom(("ite", c, a, b))


def _prop(p, q):
    import bdd
    k = prop(p, q)
    if k is None and q.t:
        k = prop(p, bdd.strip_pos(q))
    return k


def prop(p, q):
    """k if p == k*q for a nonzero constant k"""
    if not p.t or not q.t or set(p.t) != set(q.t):
        return None
    m = next(iter(p.t))
    k = p.t[m] / q.t[m]
    return k if q * P(k) == p else None


def atoms_of(x, out=None, deep=True):
    if out is None:
        out = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m:
                if a not in out:
                    out.add(a)
                    if deep:
                        for y in a[1:]:
                            atoms_of(y, out)
                if isinstance(e, Poly):
                    atoms_of(e, out)
    elif isinstance(x, (tuple, frozenset)):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("gt0", "igt0", "eq0") and x not in out:
            pass
        for y in x:
            if isinstance(y, (Poly, tuple, frozenset)):
                atoms_of(y, out)
    else:
        import bdd
        if isinstance(x, bdd.Node):
            for l in bdd.support(x):
                atoms_of(l, out)
    return out


def cond_subst(x, lit, at=None, memo=None):
    """replace literals inside conditions (lit: literal -> BDD or None) and atoms (at: atom -> Poly or None) everywhere"""
    import bdd
    if memo is None:
        memo = {}

    def g(p):
        return subst(p, f, memo)

    def f(a):
        if at is not None:
            r = at(a)
            if r is not None:
                return r
        if a[0] == "ite":
            return ite(cb(a[1]), g(a[2]), g(a[3]))
        return None

    def fl(l):
        r = lit(l) if lit else None
        if r is not None:
            return r
        n = bdd.subst_lit(l, g)
        if bdd.single(n) == (l, True):
            return n
        # the rewritten literal may be decidable now
        return bdd.compose(n, lambda m: (lit(m) if lit else None) or bdd.var(m))

    def cb(c):
        return bdd.compose(c, fl)
    return g(x) if isinstance(x, Poly) else cb(x)
