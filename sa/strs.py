"""Views in which std::string objects, string maps and output streams are values: reaching definitions of string objects, keys of map
lookups, parsed numbers, chains of operator<<."""
import re
import bdd
import fview
import heap
import ir
import policy
import terms
from heap import Missing
from ir import Const, Inst
from rnd import Undef
from terms import P, Poly, atom

BS = "std::__cxx11::basic_string::"
NUM = {"std::__cxx11::stoi": "int", "std::__cxx11::stol": "int", "std::__cxx11::stoul": "int", "std::__cxx11::stoll": "int", "std::__cxx11::stoull": "int",
       "std::__cxx11::stod": "dbl", "std::__cxx11::stof": "dbl", "std::__cxx11::stold": "dbl", "atoi": "int", "atof": "dbl", "atol": "int", "strtod": "dbl", "strtol": "int"}
READS = re.compile(r"^(std::__cxx11::basic_string::(size|length|empty|data|c_str|begin|end|cbegin|cend|compare|find|substr|operator\[\]|at|front|back|~basic_string)"
                   r"|std::operator(<<|==|!=|<)|std::basic_\w*stream::.*|std::__cxx11::sto\w+|std::map::.*|std::\w*_error::.*|std::char_traits::.*|girgs::saveDot)$")


def params(d):
    """parameter types of a demangled function, outermost list"""
    d = d[:-6] if d.endswith(" const") else d
    d = re.sub(r" \[clone .*\]$", "", re.sub(r"\[abi:\w+\]", "", d))
    if not d.endswith(")"):
        return []
    k, i = 0, len(d)
    while i:
        i -= 1
        k += (d[i] == ")") - (d[i] == "(")
        if not k:
            break
    out, depth, cur = [], 0, ""
    for c in d[i + 1:-1]:
        depth += c in "<("
        depth -= c in ">)"
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def is_str(t):
    return "std::__cxx11::basic_string<char" in t or t.startswith("std::string")


def lit(s):
    return atom(("str", s))


def has(p, kinds):
    return any(a[0] in kinds for a in terms.atoms_of(p))


class SView(fview.FView):
    """fview with string objects as values and comparisons that know about NaN"""

    def __init__(self, fn, *a, **k):
        self.sdone = {}
        self.writes = None
        self.lib = lambda v, i, n: v.string_call(i, n)
        fview.FView.__init__(self, fn, *a, **k)

    # ------------------------------------------------------------------ NaN
    def _term(self, v):
        r = fview.FView._term(self, v)
        if isinstance(v, Inst) and v.op == "fcmp" and isinstance(r, bdd.Node):
            n = self.nan(self.at(v.ops[0], v.bb)) | self.nan(self.at(v.ops[1], v.bb))
            if n is not bdd.F:
                r = (r | n) if v.x.startswith("u") else (r & ~n)
        return r

    def nan(self, t):
        if not isinstance(t, Poly):
            return bdd.F
        r = bdd.F
        for m in t.t:
            for a, e in m:
                if a[0] == "ite":
                    r = r | bdd.ite(a[1], self.nan(a[2]), self.nan(a[3]))
                elif a[0] == "num" and a[1] == "dbl":
                    r = r | bdd.var(("nan", a))
        return r

    # ------------------------------------------------------------------ strings
    def string_call(self, i, n):
        q = policy.qual(ir.demangle(n))
        if i.ty == "void":
            return None
        if q in ("std::map::operator[]", "std::map::at", "std::unordered_map::operator[]", "std::unordered_map::at"):
            key = self.sval(i.ops[1], i)
            if key is None:
                return None
            m = self.num(self.at(i.ops[0], i.bb))
            a = key.atom()
            return atom(("opt", m, a[1])) if a and a[0] == "str" else atom(("slot", m, key))
        if q in NUM:
            s = self.sval(i.ops[0], i) if q.startswith("std::") else self.chars(i.ops[0], i)
            base = self.num(self.at(i.ops[2], i.bb)).const() if len(i.ops) > 2 else None
            if s is None or base not in (None, 0, 10):
                return None
            return atom(("num", NUM[q], s))
        if q in (BS + "empty", BS + "size", BS + "length"):
            s = self.sval(i.ops[0], i)
            if s is None:
                return None
            a = s.atom()
            l = P(len(a[1])) if a and a[0] == "str" else atom(("len", s))
            return bdd.eq0(l) if q.endswith("empty") else l
        if q in ("std::char_traits::length", "strlen"):
            s = self.chars(i.ops[0], i)
            if s is None:
                return None
            a = s.atom()
            return P(len(a[1])) if a and a[0] == "str" else atom(("len", s))
        if q in (BS + "data", BS + "c_str"):
            s = self.sval(i.ops[0], i)
            return None if s is None else atom(("chars", s))
        if q in (BS + "operator[]", BS + "at", BS + "front"):
            s = self.sval(i.ops[0], i)
            return None if s is None else atom(("chrp", s, self.num(self.at(i.ops[1], i.bb)) if len(i.ops) > 1 else P(0)))
        if q in ("std::char_traits::compare", "strncmp", "memcmp", "bcmp"):
            x, y = self.chars(i.ops[0], i), self.chars(i.ops[1], i)
            return None if x is None or y is None else atom(("cmp", x, y, self.num(self.at(i.ops[2], i.bb))))
        if q == "strcmp":
            x, y = self.chars(i.ops[0], i), self.chars(i.ops[1], i)
            return None if x is None or y is None else atom(("cmp", x, y, P(1 << 20)))
        if q == BS + "compare" and len(i.ops) == 2:
            x = self.sval(i.ops[0], i)
            y = self.operand(i, 1)
            return None if x is None or y is None else atom(("cmp", x, y, P(1 << 20)))
        if q in ("std::operator==", "std::operator!=") and len(i.ops) == 2:
            x, y = self.operand(i, 0), self.operand(i, 1)
            if x is None or y is None:
                return None
            r = bdd.eq0(atom(("cmp", x, y, P(1 << 20))))
            return r if q.endswith("==") else ~r
        return None

    def chars(self, o, i):
        """character sequence behind a pointer"""
        t = self.at(o, i.bb)
        return self.chars_of(t)

    def chars_of(self, t):
        if not isinstance(t, Poly):
            return None
        a = t.atom()
        if a and a[0] == "chars":
            return a[1]
        if a and a[0] == "ite":
            x, y = self.chars_of(a[2]), self.chars_of(a[3])
            return None if x is None or y is None else terms.ite(a[1], x, y)
        if a and a[0] == "g":
            s = self.fn.mod.strings.get(a[1])
            return lit(s) if s is not None else None
        return atom(("cstr", t))

    def operand(self, i, k):
        """value of a string, const char* or char operand of a library call"""
        ps = params(ir.demangle(self.callee(i) or ""))
        off = len(i.ops) - len(ps)
        if k < off:
            return self.sval(i.ops[k], i)
        p = ps[k - off]
        if is_str(p):
            return self.sval(i.ops[k], i)
        if p in ("char const*", "char*"):
            return self.chars(i.ops[k], i)
        if p == "char":
            c = self.num(self.at(i.ops[k], i.bb)).const()
            return None if c is None else lit(chr(int(c) & 255))
        return None

    def sval(self, o, i):
        """value of the string object o right before instruction i"""
        t = self.at(o, i.bb)
        return self.sval_at(t, fview.rootval(o), i)

    def sval_at(self, t, root, i):
        if not isinstance(t, Poly):
            return None
        a = t.atom()
        if a and a[0] == "ite":
            x, y = self.sval_at(a[2], None, i), self.sval_at(a[3], None, i)
            return None if x is None or y is None else terms.ite(a[1], x, y)
        if a and a[0] in ("opt", "slot"):
            return t
        if a and a[0] == "arg":
            return atom(("strobj", t))
        if a and a[0] == "alloca":
            obj = next((x for x in self.allocas if self.term(x) == t), None)
            if obj is not None:
                return self.reach(obj, i.bb, i.idx)
        return None

    def alloca_writes(self):
        """{alloca: [call that (re)defines the string object]}"""
        if self.writes is None:
            self.writes = {}
            for b in self.rpo:
                for i in b.insts:
                    if i.op not in ("call", "invoke"):
                        continue
                    n = self.callee(i)
                    q = policy.qual(ir.demangle(n)) if n else "?"
                    if n and n.startswith("llvm.") and not n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                        continue
                    for k, o in enumerate(i.ops):
                        r = fview.rootval(o)
                        if not (isinstance(r, Inst) and r.op == "alloca"):
                            continue
                        if READS.match(q):
                            continue
                        if k > 0 and (q.startswith(BS) or q.startswith("std::operator+") or q == "std::operator+"):
                            continue              # source operand
                        w = self.writes.setdefault(r, [])
                        if i not in w:
                            w.append(i)
        return self.writes

    def reach(self, obj, b, idx):
        ws = [w for w in self.alloca_writes().get(obj, [])]
        return self._reach(obj, ws, b, idx, set())

    def _reach(self, obj, ws, b, idx, busy):
        for w in reversed([w for w in ws if w.bb is b and w.idx < idx]):
            return self.written(w, obj)
        key = (obj, b)
        if key in self.sdone:
            return self.sdone[key]
        L = self.loops.get(b)
        if L is not None and any(w.bb in L.body for w in ws):
            # a definition of an earlier iteration could arrive, unless every iteration starts with one
            return None
        vals = []
        for p in self.pred[b]:
            if L is not None and p in L.body:
                continue
            vals.append((p, self._reach(obj, ws, p, 1 << 30, busy)))
        if not vals:
            r = None
        elif all(x == vals[0][1] for _, x in vals):
            r = vals[0][1]
        elif any(x is None for _, x in vals):
            r = None
        else:
            r = vals[-1][1]
            for p, x in vals[:-1][::-1]:
                r = terms.ite(self.rc(p) & self.edge_cond(p, b), x, r)
        self.sdone[key] = r
        return r

    def written(self, w, obj):
        """value of the object after the call w"""
        n = self.callee(w)
        if n is None:
            return None
        d = ir.demangle(n)
        q = policy.qual(d)
        ps = params(d)
        if q == BS + "basic_string":
            ps = [p for p in ps if "std::allocator<char> const&" != p]
            if not ps:
                return lit("")
            if len(ps) == 1:
                return self.operand(w, 1)
            return None
        if q in (BS + "operator=", BS + "assign") and len(ps) == 1:
            return self.operand(w, 1)
        if q in (BS + "operator+=", BS + "append", BS + "push_back") and len(ps) == 1:
            x, y = self.reach(obj, w.bb, w.idx), self.operand(w, 1)
            return None if x is None or y is None else cat(x, y)
        if q == "std::operator+" and len(ps) == 2:
            x, y = self.operand(w, 1), self.operand(w, 2)
            return None if x is None or y is None else cat(x, y)
        return None

    # ------------------------------------------------------------------ streams
    def stream_root(self, o, b):
        """address term of the stream object behind a chain of operator<<"""
        t = self.num(self.at(o, b))
        seen = 0
        while True:
            a = t.atom()
            seen += 1
            if a and a[0] == "call" and seen < 500:
                i = self.inst_of(a)
                if i is None or not OUT.match(policy.qual(ir.demangle(self.callee(i) or ""))):
                    return t
                t = self.num(self.at(i.ops[0], i.bb))
                continue
            return t

    def inst_of(self, a):
        if not hasattr(self, "_byatom"):
            self._byatom = {}
            for b in self.rpo:
                for i in b.insts:
                    if i.op in ("call", "invoke") and i.ty != "void":
                        t = self.term(i)
                        if isinstance(t, Poly) and t.atom():
                            self._byatom[t.atom()] = i
        return self._byatom.get(a)


OUT = re.compile(r"^std::(operator<<|basic_ostream::(operator<<|put|write|flush|_M_insert)|ostream::(operator<<|put|write|flush|_M_insert)|endl|flush|ends|__ostream_insert)$")


def cat(x, y):
    a, b = x.atom(), y.atom()
    if a and b and a[0] == "str" and b[0] == "str":
        return lit(a[1] + b[1])
    return atom(("cat", x, y))


class SModel(heap.HModel):
    """model with strings: options is what the map holds, maxthreads etc. come from env"""

    def __init__(self, k, space, env, opts, fns=None):
        heap.HModel.__init__(self, k, space, env, fns)
        self.opts = opts

    def text(self, t):
        a = t.atom()
        if a is None:
            raise Missing("string " + terms.show(t)[:60])
        if a[0] == "str":
            return a[1]
        if a[0] in ("opt", "slot", "strobj"):
            return self.opts(self, a)
        if a[0] == "chars":
            return self.text(a[1])
        if a[0] == "cat":
            return self.text(a[1]) + self.text(a[2])
        if a[0] == "ite":
            return self.text(a[2] if self.bdd(a[1]) else a[3])
        if a[0] == "cstr":
            p, s = self.poly(a[1]), ""
            while len(s) < 1000:
                c = self.space.read(p + len(s))
                if not c:
                    return s
                s += chr(int(c))
        raise Missing("string " + terms.show(t)[:60])

    def resolve(self, a, u, m):
        if u is None:
            if a[0] == "num":
                s = self.text(a[2])
                return number(s, a[1])
            if a[0] == "len":
                return float(len(self.text(a[1])))
            if a[0] == "ld":
                c = a[1].atom()
                if c and c[0] == "chrp":
                    s, k = self.text(c[1]), int(self.poly(c[2]))
                    if not 0 <= k <= len(s):
                        raise Undef()
                    return float(ord((s + "\0")[k]))
            if a[0] == "g" and self.interp is not None and a not in self.env:
                c = self.interp.v.fn.mod.strings.get(a[1])            # string constant carried by a loop variable
                if c is not None:
                    mem = self.space.__dict__.setdefault("consts", {})
                    if a[1] not in mem:
                        mem[a[1]] = self.space.alloc(lambda o, c=c: float(ord((c + "\0")[o])) if o <= len(c) else None, "string constant")
                    return mem[a[1]]
            if a[0] == "cmp":
                n = int(self.poly(a[3]))
                x, y = self.text(a[1])[:n], self.text(a[2])[:n]
                return float((x > y) - (x < y))
        return heap.HModel.resolve(self, a, u, m)

    def lit(self, l):
        if l[0] == "nan":
            return self.text(l[1][2]).strip().lower().lstrip("+-").startswith("nan")
        return heap.HModel.lit(self, l)


def number(s, kind):
    if kind == "int":
        m = re.match(r"\s*([+-]?\d+)", s)
        if not m:
            raise Undef()
        return float(int(m.group(1)))
    t = s.strip().lower()
    m = re.match(r"[+-]?(inf(inity)?)", t)
    if m:
        return -1e30 if t.startswith("-") else 1e30
    if re.match(r"[+-]?nan", t):
        return 0.5
    m = re.match(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", t)
    if not m:
        raise Undef()
    return float(m.group(0))
