"""Write-effect analysis: does a function modify memory reachable from one of its arguments?

Flow-insensitive points-to over SSA form, interprocedural (calls and OpenMP outlined regions are followed). A value is
  T            a pointer into memory reachable from the argument
  ("F", t)     the storage of a std::function whose target closure has taint t
  ("S", slots) a pointer to local memory that holds tainted pointers, slots = ((byte offset, taint), ..): captured references,
               local objects that keep an iterator or a reference, and closures over such objects
Anything else carries no information. Only definite T pointers make a violation.
"""
import re

import fview
import ir
import policy
from ir import Const, Arg, Inst

MUT = ("push_back", "emplace_back", "pop_back", "resize", "clear", "erase", "insert", "emplace", "swap", "assign", "operator=", "shrink_to_fit", "_M_realloc_insert",
       "_M_fill_insert", "_M_default_append", "_M_fill_assign", "_M_assign_aux", "_M_erase", "_M_erase_at_end", "_M_move_assign", "_M_range_insert")
CONSTM = ("size", "begin", "end", "cbegin", "cend", "rbegin", "rend", "empty", "data", "front", "back", "operator[]", "at", "capacity", "max_size", "get_allocator", "_M_get_Tp_allocator",
          "_M_range_check", "_M_data_ptr")
SORTS = ("sort", "stable_sort", "partial_sort", "nth_element", "partition", "stable_partition", "reverse", "rotate", "shuffle", "random_shuffle", "unique", "iota", "make_heap",
         "push_heap", "pop_heap")
READS = ("accumulate", "min_element", "max_element", "minmax_element", "is_sorted", "is_sorted_until", "lower_bound", "upper_bound", "binary_search", "equal_range")


def params(d):
    """top-level parameter types of a demangled function"""
    i = d.find("(")
    out, cur, depth = [], "", 0
    for c in d[i + 1:]:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Eff:
    def __init__(self, M):
        self.M = M
        self.memo = {}
        self.bad, self.und = [], []
        self.sites = 0
        self.fns = set()

    def run(self, f, ptaint):
        """ptaint: {argument index: T or ('S', slots)}"""
        key = (f.name, tuple(sorted(ptaint.items(), key=repr)))
        if key in self.memo:
            return
        self.memo[key] = True
        self.fns.add(f.name)
        val = {}
        for k, t in ptaint.items():
            if k < len(f.args):
                val[f.args[k]] = t
        slot = {}         # alloca inst -> {offset: [values stored]}
        for i in f.insts():
            if i.op == "store":
                r, off = self.slot(i.ops[1])
                if r is not None:
                    slot.setdefault(r, {}).setdefault(off, []).append(i.ops[0])
        ch, rounds = True, 0
        while ch and rounds < 20:
            ch, rounds = False, rounds + 1
            for i in f.insts():
                n = self.step(i, val, slot)
                if n is not None and val.get(i) != n:
                    val[i] = n
                    ch = True
        for i in f.insts():
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                p = i.ops[1] if i.op == "store" else i.ops[0]
                if val.get(p) == "T":
                    self.bad.append((i, "store"))
                elif i.op == "store" and val.get(i.ops[0]) == "T" and self.slot(p)[0] is None:
                    pass                                        # pointer kept in an object, see loads below
            elif i.op in ("call", "invoke"):
                self.call(f, i, val, slot)

    def slot(self, p):
        off = 0
        while isinstance(p, Inst) and p.op in ("gep", "bitcast", "freeze"):
            if p.op == "gep":
                if p.x[1]:
                    return None, 0
                off += p.x[0]
            p = p.ops[0]
        if isinstance(p, Inst) and p.op == "alloca":
            return p, off
        return None, 0

    def obj(self, p, val, slot, depth=0):
        """taint of a pointer to local memory, as seen by a callee"""
        t = val.get(p)
        if t is not None:
            return t
        r, off = self.slot(p)
        if r is not None and depth < 4:
            offs = []
            for o in sorted(slot.get(r, {})):
                x = self.held(r, o, val, slot, depth + 1)
                if x is not None:
                    offs.append((o - off, x))
            if offs:
                return ("S", tuple(offs))
        return None

    def held(self, r, off, val, slot, depth=0):
        """taint of what local memory holds at an offset: only when every value stored there agrees"""
        vs = slot.get(r, {}).get(off)
        if not vs:
            return None
        ts = {self.obj(v, val, slot, depth) for v in vs}
        return ts.pop() if len(ts) == 1 else None

    def step(self, i, val, slot):
        if i.op in ("gep", "bitcast", "freeze", "addrspacecast"):
            t = val.get(i.ops[0])
            if isinstance(t, tuple) and t[0] == "S" and i.op == "gep":
                if i.x[1]:
                    return None
                return ("S", tuple((o - i.x[0], x) for o, x in t[1]))
            return t
        if i.op in ("phi", "select"):
            s = {val.get(o) for o in (i.ops if i.op == "phi" else i.ops[1:]) if o is not i and not (isinstance(o, Const) and o.kind in ("null", "undef"))}
            s.discard(None)
            return s.pop() if len(s) == 1 else None
        if i.op == "load" and i.ty == "ptr":
            t = val.get(i.ops[0])
            if t == "T":
                return "T"
            if isinstance(t, tuple):
                return dict(t[1]).get(0) if t[0] == "S" else None
            r, off = self.slot(i.ops[0])
            if r is not None:
                return self.held(r, off, val, slot)
        if i.op in ("call", "invoke") and i.ty == "ptr":
            n = i.x.v if i.x.kind == "fn" else None
            q = policy.qual(ir.demangle(n)) if n else ""
            if q.endswith("_M_get_pointer") and i.ops and isinstance(val.get(i.ops[0]), tuple) and val[i.ops[0]][0] == "F":
                return val[i.ops[0]][1]
            if i.ops and val.get(i.ops[0]) == "T" and q.split("::")[-1] in CONSTM + READS + SORTS:
                return "T"
        return None

    def call(self, f, i, val, slot):
        n = i.x.v if i.x.kind == "fn" else None
        ts = [self.obj(o, val, slot) for o in i.ops]
        if not any(t for t in ts):
            return
        self.sites += 1
        if n is None:
            if "T" in ts:
                self.und.append((i, "indirect call"))
            return
        if n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and ts[0] == "T":
                self.bad.append((i, n.split(".")[1]))
            return
        if n.startswith("__kmpc_fork_call"):
            g = self.M.fns.get(i.ops[2].v) if isinstance(i.ops[2], Const) else None
            if g is not None and not g.decl:
                self.run(g, {2 + k: t for k, t in enumerate(ts[3:]) if t})
            else:
                self.und.append((i, "parallel region"))
            return
        if n.startswith(("__kmpc", "omp_")):
            return
        d = ir.demangle(n)
        q = policy.qual(d)
        op = q.split("::")[-1]
        g = self.M.fns.get(n)
        if q.endswith("std::function::function") or q == "std::function::function" or re.match(r"^std::function<.*>::function<", d):
            m = re.match(r"^std::function<.*?\)>::function<(.+?)(?: const)?&{0,2}(?:, void)?>\(", d)
            if m and len(ts) > 1 and isinstance(ts[1], tuple):
                for h in self.M.fns.values():
                    if not h.decl and h.dname.startswith("std::_Function_handler<") and (m.group(1) + ">::_M_invoke(") in h.dname:
                        self.run(h, {0: ("F", ts[1])})
        std = q.startswith("std::") or q.startswith("__gnu")
        if g is not None and not g.decl and not (std and (op in MUT + CONSTM + SORTS + READS or policy.std_atomic(d))):
            self.run(g, {k: t for k, t in enumerate(ts) if t})
            return
        if "T" not in ts:
            return
        if std:
            ps = params(d)
            cls = q.split("::")[-2] if "::" in q else ""
            if cls in ("vector", "_Vector_base", "__cxx11", "basic_string") or op == cls:
                if ts[0] == "T" and op in MUT:
                    self.bad.append((i, q))
                    return
                if ts[0] == "T" and op in CONSTM:
                    return
                if ts[0] == "T" and (op == cls or op.startswith("~")):
                    return                                       # lifetime of a sub-object: only local copies are built or destroyed
                rv = [k for k, x in enumerate(ps) if x.endswith("&&") and k + 1 < len(ts) and ts[k + 1] == "T"]
                if rv and ("&&)" in d and op in (cls, "operator=", "swap")):
                    self.bad.append((i, q + " (moved from)"))
                    return
                if op == "swap":
                    self.bad.append((i, q))
                return
            if op == "swap":
                self.bad.append((i, q))
                return
            if op in SORTS:
                self.bad.append((i, q))
                return
            if op in READS or q.startswith(("std::basic_ostream", "std::operator<<", "std::basic_ofstream", "std::__throw")):
                return
            if all("const" in x or not ("*" in x or "&" in x) for x in ps) and ts[0] != "T":
                return
            if d.rstrip().endswith("const"):
                return
        if n in ("log", "exp", "pow", "_ZdlPv", "_ZdlPvm", "__cxa_begin_catch", "printf"):
            if n.startswith("_Zdl"):
                self.bad.append((i, "deallocation"))
            return
        self.und.append((i, q[:80]))


def unmodified(rep, M, f, k, rule, conf):
    ps = params(f.dname)
    if k >= len(ps):
        rep.undecided(rule, f.dname[:60], "no such parameter", conf)
        return
    if not ps[k].endswith(("&", "*")):
        rep.ok(rule, f.dname[:60], "passed by value", conf)
        return
    e = Eff(M)
    e.run(f, {k + len(f.args) - len(ps): "T"})
    rep.count("functions followed", len(e.fns))
    rep.count("calls with a pointer into the input", e.sites)
    if e.bad:
        for i, what in e.bad[:3]:
            rep.bad(rule, fview.where(i), "%s writes into %s of %s" % (what, ps[k], policy.qual(f.dname)), None, conf)
    elif e.und:
        rep.undecided(rule, fview.where(e.und[0][0]), "; ".join(sorted({w for _, w in e.und}))[:300], conf)
    else:
        rep.ok(rule, f.dname[:60], "%d functions followed" % len(e.fns), conf)
