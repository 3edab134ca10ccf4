"""Identity test for canonical terms: random interpretation.

Two terms extracted from the source may denote the same function and still have different normal forms (a rewritten
formula, a different association of the same sums). Before a mismatch is reported, both terms are interpreted in
random models: base atoms get random numbers from the stated domain, known functions their meaning, unknown ones a
random function. Equal terms agree in every model; unequal real-analytic terms differ in almost every one
(Schwartz-Zippel). The program under analysis is never run, only its algebraic normal forms are evaluated.
"""
import math
import random
import hashlib
import bdd
import terms
from terms import Poly


class Undef(Exception):
    pass


class Model:
    def __init__(self, k, dom=None, exact=False):
        self.k, self.dom, self.exact = k, dom, exact or getattr(dom, 'exact', False)          # exact: a literal that is exactly 0 is decided (boundary values)
        self.m, self.a, self.b = {}, {}, {}
        self.fu = {}

    def rnd(self, key):
        if key in self.fu:
            return self.fu[key]
        h = hashlib.sha256(("%d|%s" % (self.k, key)).encode()).digest()
        return int.from_bytes(h[:7], "big") / float(1 << 56)

    def base(self, a):
        key = terms.show_atom(a)
        u = self.rnd(key)
        if self.dom:
            r = self.dom(a, u, self)
            if r is not None:
                return r
        return 0.25 + 2.0 * u

    def poly(self, p):
        r = self.m.get(p)
        if r is None:
            r = 0.0
            for c, m, lin in p.flat()[0]:
                x = c
                if lin:
                    for a, _ in m:
                        x *= self.atom(a)
                else:
                    for a, e in m:
                        e = e if e.__class__ is float else self.poly(e)
                        x *= math.exp(e) if a is None else self.pw(self.atom(a), e)
                r += x
            self.m[p] = r
        return r

    def exp(self, e):
        return self.poly(e) if isinstance(e, Poly) else float(e)

    @staticmethod
    def pw(b, e):
        try:
            if e == 1:
                return b
            if b < 0 and e != int(e):
                raise Undef()
            if b == 0 and e < 0:
                raise Undef()
            return b ** e
        except OverflowError:
            raise Undef()

    def atom(self, a):
        r = self.a.get(a)
        if r is None:
            r = self._atom(a)
            if r != r:
                raise Undef()
            self.a[a] = r
        return r

    F1 = {"log": math.log, "cos": math.cos, "sin": math.sin, "cosh": math.cosh, "sinh": math.sinh, "asinh": math.asinh, "acosh": math.acosh,
          "acos": math.acos, "asin": math.asin, "atan": math.atan, "tanh": math.tanh, "atanh": math.atanh, "floor": lambda x: math.floor(x + 1e-9), "ceil": lambda x: math.ceil(x - 1e-9),
          "trunc": lambda x: math.trunc(x + math.copysign(1e-9, x)), "abs": abs, "sum": lambda x: x, "round": round}

    def _atom(self, a):
        t = a[0]
        try:
            if t == "pi":
                return math.pi
            if t == "inf":
                return 1e30
            if t == "c":
                return float(a[1])
            if self.dom:
                r = self.dom(a, None, self)
                if r is not None:
                    return r
            if t in ("max", "min"):
                v = [self.poly(x) for x in a[1]]
                return max(v) if t == "max" else min(v)
            if t in self.F1 and len(a) == 2 and isinstance(a[1], Poly):
                return float(self.F1[t](self.poly(a[1])))
            if t in ("idiv", "udiv"):
                n, d = self.poly(a[1]), self.poly(a[2])
                if d == 0:
                    raise Undef()
                q = n / d
                return float(math.floor(q + 1e-9) if q >= 0 else -math.floor(-q + 1e-9))
            if t == "mod":
                n, d = self.poly(a[1]), self.poly(a[2])
                if d == 0:
                    raise Undef()
                return n - d * math.floor(n / d + 1e-9)
            if t == "float32":
                x = self.poly(a[1])                    # rounded to single precision: any other number nearby
                return x * (1 + 1e-3 * (self.rnd("f%.9g" % x) - 0.5))
            if t == "atan2":
                return math.atan2(self.poly(a[1]), self.poly(a[2]))
            if t == "ite":
                return self.poly(a[2]) if self.bdd(a[1]) else self.poly(a[3])
            if t == "pow":
                return self.pw(self.poly(a[1]), self.poly(a[2]))
            if t in ("and", "or", "xor"):
                x, y = self.poly(a[1]), self.poly(a[2])
                if x != int(x) or y != int(y) or abs(x) > 1 << 52 or abs(y) > 1 << 52:
                    raise Undef()
                x, y = int(x), int(y)
                return float(x & y if t == "and" else x | y if t == "or" else x ^ y)
            if t == "ctlz":
                x = self.poly(a[1])
                if x != int(x) or x < 0:
                    raise Undef()
                return float(32 - int(x).bit_length())
            if t == "mul":
                return self.poly(a[1]) * self.poly(a[2])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef()
        return self.base(self.keyed(a))

    def keyed(self, a):
        """the atom with its arguments evaluated: equal arguments give equal values, however they are written"""
        if any(isinstance(x, (Poly, tuple, frozenset)) for x in a[1:]):
            return (a[0],) + tuple(self.key(x) for x in a[1:])
        return a

    def draw(self, a):
        """the random number behind an atom"""
        return self.rnd(terms.show_atom(self.keyed(a)))

    def key(self, x):
        if isinstance(x, Poly):
            return "%.9g" % self.poly(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                return x
            return "(" + ",".join(str(self.key(y)) for y in x) + ")"
        if isinstance(x, frozenset):
            return "{" + ",".join(sorted(str(self.key(y)) for y in x)) + "}"
        return x

    def lit(self, l):
        r = self.b.get(l)
        if r is None:
            if l[0] in ("gt0", "igt0"):
                v = self.poly(l[1])
                if l[0] == "gt0" and abs(v) < 1e-9 and not (self.exact and v == 0):
                    raise Undef()
                r = v > 1e-9
            elif l[0] == "eq0":
                r = abs(self.poly(l[1])) < 1e-9
            else:
                r = self.rnd(terms.show_any(l)) < 0.5
            self.b[l] = r
        return r

    def bdd(self, f):
        while f is not bdd.T and f is not bdd.F:
            f = f.hi if self.lit(bdd._rev[f.v]) else f.lo
        return f is bdd.T


def close(x, y):
    return abs(x - y) <= 1e-7 * max(1e-3, abs(x), abs(y))


def literals(*ts):
    """boundaries of the case distinctions inside the terms: polynomials whose sign decides a case"""
    out, steps = {}, {}

    def cond(c):
        for l in bdd.support(c):
            if l[0] in ("gt0", "igt0", "eq0"):
                out.setdefault(l[1], None)
                walk(l[1])

    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            if x in seen:
                return
            seen.add(x)
            for m in x.t:
                for a, e in m:
                    at(a)
                    if isinstance(e, Poly):
                        walk(e)

    def at(a):
        if a in seen:
            return
        seen.add(a)
        if a[0] in ("trunc", "floor", "ceil") and len(a) == 2 and isinstance(a[1], Poly):
            steps.setdefault(a[1], None)
        if a[0] == "ite":
            cond(a[1])
        if a[0] in ("max", "min"):
            l = sorted(a[1], key=terms.show)
            for i in range(len(l)):
                for j in range(i):
                    out.setdefault(l[i] - l[j], None)
        for y in a[1:]:
            if isinstance(y, Poly):
                walk(y)
            elif isinstance(y, frozenset):
                for z in y:
                    if isinstance(z, Poly):
                        walk(z)
    for t in ts:
        if isinstance(t, Poly):
            walk(t)
        else:
            cond(t)
    return [(x, sign) for x in out] + [(x, cell) for x in steps]


def sign(x):
    return x > 0


def cell(x):
    return math.floor(x + 1e-9)


STRUCT = ("max", "min", "ite", "idiv", "udiv", "mod", "pi", "e", "c", "inf", "pow", "and", "or", "xor", "ctlz", "mul")
GRID = sorted([g / 64.0 for g in range(64)] + [2.0 ** -k / 64 for k in range(1, 12)] + [1 - 2.0 ** -k / 64 for k in range(1, 12)])


def leaves(p):
    """base atoms of a polynomial"""
    return [a for a in sorted(terms.atoms_of(p), key=terms.show_atom) if a[0] not in Model.F1 and a[0] not in STRUCT and (a[0] == "ld" or not (len(a) == 2 and isinstance(a[1], Poly)))]


def edge_models(p, q, dom, limit=600):
    """models on both sides of a case boundary; the domain stays respected, only the random number behind one atom is chosen"""
    n = 0
    lits = literals(p, q)
    for k in range(3):
        for L, side in lits:
            for a in leaves(L)[:4]:
                keys = [terms.show_atom(a), "level" + str(a)]
                try:
                    ka = Model(k, dom).keyed(a)
                    keys += [terms.show_atom(ka), "level" + str(ka)]
                except (Undef, OverflowError, ValueError, ZeroDivisionError):
                    pass

                def value(u):
                    m = Model(k, dom)
                    m.fu = {x: u for x in keys}
                    try:
                        return m.poly(L)
                    except (Undef, OverflowError, ValueError, ZeroDivisionError):
                        return None
                pts = [(u, value(u)) for u in GRID]
                pts = [(u, x) for u, x in pts if x is not None]
                pick = [u for x, u in sorted((abs(x), u) for u, x in pts)[:2]]
                for (u, x), (w, y) in list(zip(pts, pts[1:]))[:200]:
                    if side(x) == side(y) or len(pick) > 16:
                        continue
                    pick += [u, w]
                    for step in range(30):
                        c = (u + w) / 2
                        z = value(c)
                        if z is None:
                            break
                        if side(z) == side(x):
                            u = c
                        else:
                            w = c
                        if step in (4, 10, 18, 26):
                            pick += [u, w]
                for u in dict.fromkeys(pick):
                    mm = Model(k, dom)
                    mm.fu = {x: u for x in keys}
                    yield mm
                    n += 1
                    if n >= limit:
                        return


def same(p, q, dom=None, trials=40, care=None):
    """do both terms (Poly) or conditions (BDD) denote the same function? care: BDD restricting the models"""
    if p is q or p == q:
        return True
    if isinstance(p, Poly) != isinstance(q, Poly):
        return False
    good = k = 0
    while good < trials and k < trials * 40:
        r = agree(Model(k, dom), p, q, care)
        if r is False:
            return False
        good += r is True
        k += 1
    if good < min(trials, 8):
        return False
    return all(agree(m, p, q, care) is not False for m in edge_models(p, q, dom))


def agree(m, p, q, care=None):
    """True/False, None if undefined in this model"""
    try:
        if care is not None and not m.bdd(care):
            return None
        if isinstance(p, Poly):
            return close(m.poly(p), m.poly(q))
        return m.bdd(p) == m.bdd(q)
    except (Undef, OverflowError, ValueError, ZeroDivisionError):
        return None


def models(p, q, dom, trials):
    for k in range(trials * 40):
        yield Model(k, dom)
    yield from edge_models(p, q, dom)


def counter(p, q, dom=None, trials=40, care=None):
    """a model that separates the two terms: text for the report"""
    for m in models(p, q, dom, trials):
        try:
            if care is not None and not m.bdd(care):
                continue
            if isinstance(p, Poly):
                x, y = m.poly(p), m.poly(q)
                if not close(x, y):
                    return "source %.9g, required %.9g" % (x, y)
            elif m.bdd(p) != m.bdd(q):
                return "source %s, required %s" % (m.bdd(p), m.bdd(q))
        except (Undef, OverflowError, ValueError, ZeroDivisionError):
            continue
    return ""
