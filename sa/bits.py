"""Bit provenance: for every bit of an SSA value, the set of input bits it is the disjunction of (a dataflow lattice, no solver)."""
from ir import Const, Arg, Inst
import fview

ZERO = frozenset()
ONE = "1"
TOP = "T"


def src(n, k):
    return frozenset([(n, k)])


def show(b):
    if b is TOP:
        return "unknown"
    if b == ONE:
        return "constant 1"
    if not b:
        return "constant 0"
    return " | ".join("%s[%d]" % x for x in sorted(b))


def b_or(x, y):
    if x == ONE or y == ONE:
        return ONE
    if x is TOP or y is TOP:
        return y if x == ZERO and x is not TOP else x if y == ZERO and y is not TOP else TOP
    return x | y


def b_and(x, y):
    if x == ZERO or y == ZERO:
        return ZERO
    if x == ONE:
        return y
    if y == ONE:
        return x
    if x is TOP or y is TOP:
        return TOP
    if x == y:
        return x
    return TOP


def b_xor(x, y):
    if x == ZERO:
        return y
    if y == ZERO:
        return x
    if x is not TOP and x == y:
        return ZERO
    return TOP


def width(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64


class Bits:
    def __init__(self, view):
        self.v = view
        self.memo = {}
        self.args = {}
        self.load = None
        self.base = None

    def const(self, n, w):
        n &= (1 << w) - 1
        return [ONE if n >> k & 1 else ZERO for k in range(w)]

    def val(self, x):
        if isinstance(x, Const):
            if x.kind == "int":
                return self.const(x.v, width(x.ty))
            return [TOP] * width(x.ty)
        if isinstance(x, Arg):
            return self.args.get(x.i, [TOP] * width(x.ty))
        r = self.memo.get(x)
        if r is None:
            self.memo[x] = [TOP] * width(x.ty)
            r = self._val(x)
            if r is None:
                r = [TOP] * width(x.ty)
            self.memo[x] = r
        return r

    def cnum(self, x):
        """value of an operand whose bits are all known"""
        b = self.val(x)
        n = 0
        for k, y in enumerate(b):
            if y == ONE:
                n |= 1 << k
            elif y != ZERO or y is TOP:
                return None
        return n

    def _val(self, x):
        op, w = x.op, width(x.ty)
        o = x.ops
        if op in ("zext", "trunc", "sext", "freeze", "bitcast"):
            b = self.val(o[0])
            if op == "sext":
                return (b + [b[-1]] * w)[:w]
            return (b + [ZERO] * w)[:w]
        if op in ("or", "and", "xor"):
            f = {"or": b_or, "and": b_and, "xor": b_xor}[op]
            return [f(a, b) for a, b in zip(self.val(o[0]), self.val(o[1]))]
        if op == "add":
            a, b = self.val(o[0]), self.val(o[1])
            if all(p == ZERO or q == ZERO for p, q in zip(a, b)):
                return [b_or(p, q) for p, q in zip(a, b)]
            n, m = self.cnum(o[0]), self.cnum(o[1])
            return self.const(n + m, w) if n is not None and m is not None else None
        if op in ("shl", "lshr", "ashr"):
            k = self.cnum(o[1])
            if k is None or k >= w:
                return None
            b = self.val(o[0])
            if op == "shl":
                return ([ZERO] * k + b)[:w]
            return (b[k:] + [ZERO if op == "lshr" else b[-1]] * k)[:w]
        if op in ("mul", "udiv", "urem"):
            k = self.cnum(o[1])
            j = self.cnum(o[0])
            if k is None and op == "mul":
                k, j = j, k
                o = [o[1], o[0]]
            if k is not None and j is not None and k:
                return self.const({"mul": j * k, "udiv": j // k, "urem": j % k}[op], w)
            if k and k & (k - 1) == 0:
                s = k.bit_length() - 1
                b = self.val(o[0])
                return ([ZERO] * s + b)[:w] if op == "mul" else (b[s:] + [ZERO] * s)[:w] if op == "udiv" else (b[:s] + [ZERO] * w)[:w]
            return None
        if op == "call":
            n = self.v.callee(x) or ""
            if ".pdep." in n or ".pext." in n:
                m = self.cnum(o[1])
                if m is None:
                    return None
                b = self.val(o[0])
                pos = [k for k in range(w) if m >> k & 1]
                r = [ZERO] * w
                for j, k in enumerate(pos):
                    if ".pdep." in n:
                        r[k] = b[j]
                    else:
                        r[j] = b[k]
                return r
            if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
                k = self.cnum(o[2])
                if k is None:
                    return None
                k %= w
                hi, lo = self.val(o[0]), self.val(o[1])
                cat = lo + hi
                return cat[w - k:2 * w - k] if "fshl" in n else cat[k:k + w]
            if n.startswith("llvm.bswap"):
                b = self.val(o[0])
                return [y for k in range(0, w, 8) for y in b[w - 8 - k:w - k]]
            return None
        if op in ("select", "phi"):
            vs = [self.val(y) for y in (o[1:] if op == "select" else [y for y, p in zip(o, x.x) if p in self.v.rpon])]
            return [vs[0][k] if all(y[k] == vs[0][k] for y in vs) else TOP for k in range(w)]
        if op == "load":
            root = fview.rootval(o[0])
            if isinstance(root, Inst) and root.op == "alloca":
                return self.local(x, root, w)
            if self.load is not None:
                off = (self.v.addr(o[0], x.bb) - self.base).const()
                if off is not None:
                    bs = []
                    o4 = int(off)
                    while len(bs) < w:
                        r = self.load(o4 // 4 * 4)
                        if r is None:
                            return None
                        k = o4 % 4 * 8
                        bs += r[k:]
                        o4 = o4 // 4 * 4 + 4
                    return bs[:w]
        return None

    def local(self, ld, root, w):
        """load from a local array: the last store on every path must be the same one (straight-line code after unrolling)"""
        a = self.v.addr(ld.ops[0], ld.bb)
        best = None
        for s in self.v.stores().get(root, []):
            d = (self.v.addr(s.ops[1], s.bb) - a).const()
            if d is None:
                return None
            if d == 0 and s.x["size"] * 8 >= w and self.v.dominates(s.bb, ld.bb) and (s.bb is not ld.bb or s.idx < ld.idx):
                if best is None or self.v.dominates(best.bb, s.bb) and (best.bb is not s.bb or best.idx < s.idx):
                    best = s
            elif -s.x["size"] < d < w // 8:
                if not (s.bb is ld.bb and s.idx > ld.idx) and not (self.v.dominates(ld.bb, s.bb) and s.bb is not ld.bb):
                    return None
        return self.val(best.ops[0])[:w] if best is not None else None

    def ret(self):
        rs = [i for b in self.v.rpo for i in b.insts if i.op == "ret" and i.ops]
        if len(rs) != 1:
            return None
        return self.val(rs[0].ops[0])

    def stores(self, base):
        """offset -> bits of the (last) store to base + offset, 4-byte granularity"""
        out = {}
        for b in self.v.rpo:
            for i in b.insts:
                if i.op == "store":
                    off = (self.v.addr(i.ops[1], b) - base).const()
                    if off is not None:
                        bs = self.val(i.ops[0])
                        for k in range(0, len(bs), 32):
                            out[int(off) + k // 8] = bs[k:k + 32]
        return out
