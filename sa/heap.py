"""Finite models of the data structure for deciding statements about extracted iteration domains.

The views give loop bounds, guards and call arguments as terms over memory reads. A heap model gives every such read a
value: a small, randomly chosen but consistent instance of the data structure (object fields, vectors, prefix sums).
Domains and guards are then finite sets of integer points that are compared with the required set. Reads of node data
and random draws stay symbolic: a condition that depends on them is decided both ways.
"""
import math
from fractions import Fraction
import bdd
import rnd
import terms
from terms import Poly, P, atom
from rnd import Undef


class Data(Exception):
    """the value depends on node data or on a random draw"""


class Missing(Exception):
    """the model does not give this memory location a value"""


SHIFT = 40


class Space:
    """address space: regions of 1 TB"""

    def __init__(self):
        self.reg = []

    def alloc(self, read, name=""):
        """read(offset) -> value"""
        self.reg.append((read, name))
        return float(len(self.reg) << SHIFT)

    def read(self, addr):
        a = int(addr)
        k = (a >> SHIFT) - 1
        if not 0 <= k < len(self.reg) or a != addr:
            raise Missing("address %r" % addr)
        f, name = self.reg[k]
        r = f(a & ((1 << SHIFT) - 1))
        if r is None:
            raise Missing("%s+%d" % (name, a & ((1 << SHIFT) - 1)))
        return r

    def name(self, addr):
        a = int(addr)
        k = (a >> SHIFT) - 1
        return (self.reg[k][1], a & ((1 << SHIFT) - 1)) if 0 <= k < len(self.reg) else (None, a)


class HModel(rnd.Model):
    def __init__(self, k, space, env, fns=None, data=None):
        rnd.Model.__init__(self, k, self.resolve, exact=True)
        self.space, self.env, self.fns, self.data = space, env, fns or {}, data
        self.interp = None

    @staticmethod
    def pw(b, e):
        """power with saturation (infinite exponents are modelled by a huge number)"""
        if e == 1:
            return b
        if b < 0 and e != int(e) or b == 0 and e < 0:
            raise Undef()
        try:
            return b ** e
        except OverflowError:
            return 1e300 if b > 1 else 0.0

    def poly(self, p):
        r = self.m.get(p)
        if r is None:
            r = big = 0.0
            atom, mons, frac = self.atom, *p.flat()
            for c, m, lin in mons:
                if lin:
                    x = c
                    for a, _ in m:
                        x *= atom(a)
                else:
                    fs = [(math.e if a is None else atom(a), e if e.__class__ is float else self.poly(e)) for a, e in m]
                    lg = 0.0
                    for b, e in fs:
                        if b <= 0:
                            lg = 0.0
                            break
                        if e > 8 or e < -8 or b > 1e50 or b < 1e-50:
                            lg = max(lg, abs(e * math.log(b)))
                    if lg > 200:
                        x = sum(e * math.log(b) for b, e in fs)      # huge powers: in the log domain
                        r += c * (0.0 if x < -600 else 1e260 if x > 600 else math.exp(x))
                        continue
                    x = c
                    for b, e in fs:
                        x *= b if e == 1 else self.pw(b, e)
                r += x
                if x > big:
                    big = x
                elif -x > big:
                    big = -x
            if big > 1099511627776.0 and (frac or big > 9007199254740992.0):        # differences of (products of) addresses: exactly
                r = self.precise(p, r)
            self.m[p] = r
        return r

    def precise(self, p, r):
        s = Fraction(0)
        for m, c in p.t.items():
            x = Fraction(c)
            for a, e in m:
                if a == ("e",):
                    return r
                b, e = self.atom(a), self.exp(e)
                if b != int(b) or e != int(e) or e < 0 or e > 8:
                    return r
                x *= int(b) ** int(e)
            s += x
        return float(s)

    def resolve(self, a, u, m):
        if u is not None:
            return None
        if a in self.env:
            r = self.env[a]
            if r is Data:
                raise Data()
            return r
        if a[0] == "ld":
            return float(self.space.read(self.poly(a[1])))
        f = self.fns.get(a[0])
        if f is not None:
            return f(self, a)
        if a[0] == "fin" and self.interp is not None:
            return self.interp.final(a[1], self)
        if a[0] == "kx" and self.interp is not None:
            return self.interp.exit_count(a, self)
        if a[0] in ("call", "ldx", "val", "phi", "cyc", "rmw", "kx", "k", "fin", "xv", "lost", "undef", "edge"):
            if self.data is not None:
                r = self.data(self, a)
                if r is not None:
                    return r
            raise Missing(terms.show_atom(a)[:80])
        return None

    def possible(self, f, choice=None):
        """can the condition hold for some node data / draws?"""
        seen = {}

        def go(g):
            if g is bdd.T:
                return True
            if g is bdd.F:
                return False
            r = seen.get(g)
            if r is None:
                try:
                    r = go(g.hi) if self.lit(bdd._rev[g.v]) else go(g.lo)
                except Data:
                    r = go(g.hi) or go(g.lo)
                seen[g] = r
            return r
        return go(f)

    def residual(self, f):
        """the condition with every literal decided that does not depend on node data / draws"""
        memo = {}

        def go(g):
            if g is bdd.T or g is bdd.F:
                return g
            r = memo.get(g)
            if r is None:
                l = bdd._rev[g.v]
                try:
                    r = go(g.hi) if self.lit(l) else go(g.lo)
                except Data:
                    r = bdd.ite(bdd.mk(g.v, bdd.F, bdd.T), go(g.hi), go(g.lo))
                memo[g] = r
            return r
        return go(f)

    def value(self, t):
        if isinstance(t, Poly):
            return self.poly(t)
        return 1.0 if self.bdd(t) else 0.0


class Interp:
    """evaluates the iteration domain of blocks of a view in a heap model"""

    def __init__(self, view, mk, limit=64):
        """mk(env) -> HModel; limit: number of values tried for a counter that is advanced by random draws"""
        self.v, self.mk, self.limit = view, mk, limit
        self.opaque = 0
        self.maxiter = 5000

    def model(self, env):
        m = self.mk(env)
        m.interp = self
        return m

    def recs(self, L):
        return {a: r for a, r in self.v.recur.items() if r[0] is L}

    def trips(self, L, m):
        n = self.v.trip(L)
        if n is None:
            return None
        x = m.poly(n)
        r = int(math.floor(x + 0.5))
        if abs(x - r) > 1e-6:
            r = int(math.ceil(x))
        return max(0, r)

    def iterate(self, L, env):
        """environments of the iterations of L, entered with env"""
        m = self.model(env)
        K = L.K.atom()
        n = self.trips(L, m)
        st = self.start(L, m)
        geo = [a for a, x in st.items() if x is Data]
        if n is None:
            if len(geo) == 1:
                for r in range(self.limit):
                    e = dict(env)
                    e.update({x: y for x, y in st.items() if y is not None})
                    e[geo[0]] = float(r)
                    e[K] = float(r)
                    yield e
                return
            yield from self.simulate(L, env, st)
            return
        if n > self.maxiter:
            raise Missing("loop with %d iterations" % n)
        for k in range(n):
            e = dict(env)
            e[K] = float(k)
            e.update({x: y for x, y in st.items() if y is not None})
            yield e
            if st and k + 1 < n:
                st = self.step(L, e)

    def step(self, L, e):
        m = self.model(e)
        st = {}
        for a, (_, init, nxt, _i) in self.recs(L).items():
            try:
                st[a] = m.value(nxt)
            except Data:
                st[a] = Data
            except Missing:
                st[a] = None
        return st

    def simulate(self, L, env, st):
        """loop without a closed trip count: its own exit tests decide"""
        if not st and L.K is None:
            raise Missing("loop bound")
        K = L.K.atom()
        for k in range(self.maxiter):
            e = dict(env)
            e[K] = float(k)
            e.update({x: y for x, y in st.items() if y is not None})
            yield e
            m = self.model(e)
            go = bdd.F
            for b in L.latches:
                go = go | (self.v.rc(b) & self.v.edge_cond(b, L.h))
            if not m.bdd(go):
                return
            st = self.step(L, e)
        raise Missing("loop bound")

    def final(self, a, m):
        """value of the loop-carried variable a when its loop is left"""
        L = self.v.recur[a][0]
        env = dict(m.env)
        last = None
        n = self.trips(L, m)
        if n is None:
            for e in self.simulate(L, env, self.start(L, m)):
                last = e
            if last.get(a) is None:
                raise Missing("final value")
            if last[a] is Data:
                raise Data()
            return last[a]
        if n == 0:
            return m.value(self.v.recur[a][1])
        for e in self.iterate(L, env):
            last = e
        r = self.step(L, last)[a]
        if r is Data:
            raise Data()
        if r is None:
            raise Missing("final value")
        return r

    def start(self, L, m):
        st = {}
        for a, (_, init, nxt, _i) in self.recs(L).items():
            try:
                st[a] = m.value(init)
            except Data:
                st[a] = Data
            except Missing:
                st[a] = None
        return st

    def exit_count(self, a, m):
        """number of completed iterations when a loop is left"""
        L = next((l for l in self.v.loops.values() if l.h.id == a[-1]), None)
        if L is None:
            raise Missing("exit of a loop")
        n = self.trips(L, m)
        if n is not None:
            return float(n)
        last = None
        for e in self.simulate(L, dict(m.env), self.start(L, m)):
            last = e
        return last[L.K.atom()]

    def points(self, b, env):
        """[(env, residual condition over data literals)] for the executions of block b"""
        loops = self.v.loops_of(b)
        lits = {}
        for L in loops:
            if self.v.trip(L) is not None and L.contlit:
                lits[L.contlit[0]] = L.contlit[1]
        conds = {}
        for L, c in self.v.guards(b):
            conds[L] = conds.get(L, bdd.T) & bdd.restrict(c, lits)
        out = []

        def go(k, env, data):
            L = loops[k - 1] if k else None
            c = conds.get(L, bdd.T)
            if c is not bdd.T:
                m = self.model(env)
                r = m.residual(c)
                if r is bdd.F:
                    return
                data = data + [(m, r)] if r is not bdd.T else data
            if k == len(loops):
                out.append((env, data))
                return
            for e in self.iterate(loops[k], env):
                go(k + 1, e, data)
        go(0, dict(env), [])
        return out
