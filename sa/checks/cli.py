"""Command line tools: option parsing, parameter flow into the generation steps, range checks, output files."""
import math
import random
import re
import bdd
import fview
import heap
import ir
import policy
import strs
import terms
import units
from heap import Data, Missing, Interp
from ir import AnalysisError
from rnd import Undef
from strs import SModel, SView
from terms import P, atom

TOOLS = ("gengirg", "genhrg")
R_PARSE = "the option map holds exactly the values following each -name argument"
R_STEP = "valid parameters: every generation step is called once, in order, with the parameters of the options"
R_FILE = "valid parameters: exactly the requested output files are written, under the requested name"
R_THREADS = "the number of threads is set to the option before the first generation step"
R_REJECT = "a parameter outside of its range ends the program with an error before any generation step"
R_ACCEPT = "parameters inside of their ranges (bounds included as documented) are accepted"

DEFAULTS = {
    "gengirg": {"n": 10000, "d": 1, "ple": 2.5, "alpha": 1e30, "deg": 10, "wseed": 12, "pseed": 130, "sseed": 1400, "threads": 1},
    "genhrg": {"n": 10000, "alpha": 0.75, "t": 0, "deg": 10, "rseed": 12, "aseed": 130, "sseed": 1400, "threads": 1},
}
FLAGS = {"gengirg": ("dot", "edge"), "genhrg": ("nkr", "edge", "coord")}
INTS = ("n", "d", "wseed", "pseed", "sseed", "rseed", "aseed", "threads")
STEPS = {
    "gengirg": ("girgs::generateWeights", "girgs::generatePositions", "girgs::scaleWeights", "girgs::generateEdges", "girgs::saveDot"),
    "genhrg": ("hypergirgs::calculateRadius", "hypergirgs::calculateRadiusLikeNetworKit", "hypergirgs::sampleRadii", "hypergirgs::sampleAngles",
               "hypergirgs::generateEdges"),
}
MAXT = 8


class Tool:
    def __init__(self, rep, tmp, name, conf, defs):
        self.name, self.conf = name, conf
        src = units.SRC + "/cli/%s/main.cpp" % name
        self.M = M = units.build(tmp, name, [src], defs)
        if "main" not in M.fns:
            raise AnalysisError("main of %s not found" % name)
        self.f = M.fns["main"]
        self.v = v = SView(self.f)
        rep.unit("%s (main with everything it inlines) [%s]" % (name, " ".join(defs) or "debug"))
        self.where = fview.where(next(i for i in self.f.insts() if i.op == "call")).rsplit(":", 1)[0]
        self.calls = [c for c in v.calls() if c.q]
        self.steps = [c for c in self.calls if c.q in STEPS[name]]
        self.setthreads = [c for c in self.calls if c.q == "omp_set_num_threads"]
        self.opens = [c for c in self.calls if re.match(r"std::basic_o?f?stream::(basic_ofstream|basic_fstream|open)$|std::basic_ofstream::(basic_ofstream|open)$|fopen$", c.q)]
        self.exits = [c for c in self.calls if c.q in ("exit", "_exit", "std::exit", "abort", "std::abort", "std::terminate", "__cxa_throw", "quick_exit", "_Exit")]
        self.order = {b: k for k, b in enumerate(v.rpo)}
        self.full = {}

    def path(self, b):
        if b not in self.full:
            self.full[b] = self.v.full(b)
        return self.full[b]

    def v_returns(self):
        return [(b, self.v.num(self.v.at(b.term.ops[0], b))) for b in self.v.rpo if b.term.op == "ret" and b.term.ops]

    def scenario(self, argv):
        """environment of a run with these arguments"""
        return Scenario(self, argv)


def parse(argv):
    """documented parsing: -name value pairs, a missing value is empty"""
    out, i = {}, 1
    while i < len(argv):
        if not argv[i].startswith("-"):
            i += 1
            continue
        out[argv[i][1:]] = argv[i + 1] if i + 1 < len(argv) else ""
        i += 2
    return out


class Scenario:
    def __init__(self, tool, argv):
        self.tool, self.argv = tool, argv
        self.opts = parse(argv)
        sp = self.sp = heap.Space()
        text = [a.encode() for a in argv]

        def rd(s):
            return lambda o: float(s[o]) if o < len(s) else 0.0 if o == len(s) else None
        ptr = [sp.alloc(rd(s), "argv[%d]" % k) for k, s in enumerate(text)]
        self.argp = sp.alloc(lambda o: ptr[o // 8] if o % 8 == 0 and o // 8 < len(ptr) else 0.0 if o // 8 == len(ptr) else None, "argv")
        f = tool.f
        self.env = {("arg", tool.v.sid, 0): float(len(argv)), ("arg", tool.v.sid, 1): self.argp, ("maxthreads",): float(MAXT)}
        for c in tool.calls:                                      # files can be opened and written
            m = re.match(r"std::(?:basic_\w*stream|basic_ios)::(is_open|good|operator bool|operator!|fail|bad|operator void\*)$", c.q)
            if m and c.inst.ty != "void":
                self.env[("call",) + tool.v.tag + (tool.v.sid, c.inst.id)] = 1.0 if m.group(1) in ("is_open", "good", "operator bool", "operator void*") else 0.0
        self.obj = {}
        for a in tool.v.allocas:
            self.obj[tool.v.term(a).atom()] = self.env[tool.v.term(a).atom()] = sp.alloc(lambda o: None, "local")
        for c in tool.steps:
            if c.inst.ty not in ("void", "i1"):
                t = tool.v.term(c.inst)
                if t.atom():
                    self.env[t.atom()] = 20.0 + c.inst.id / 7.0
        self.m = SModel(1, sp, self.env, lambda m, a: self.look(m, a))

    def look(self, m, a):
        if a[0] == "slot":
            raise Missing("option name")
        return self.opts.get(a[2], "")

    def active(self, cs):
        """calls that are reached; raises Missing if a path condition is not understood"""
        out = []
        for c in cs:
            if self.m.bdd(self.tool.path(c.inst.bb)):
                out.append(c)
        return sorted(out, key=lambda c: (self.tool.order[c.inst.bb], c.inst.idx))

    def args(self, c):
        n = len(strs.params(ir.demangle(c.callee)))
        return c.inst.ops[len(c.inst.ops) - n:] if n else c.inst.ops

    def num(self, c, k):
        o = self.args(c)[k]
        t = self.tool.v.at(o, c.inst.bb)
        if isinstance(t, bdd.Node):
            return 1.0 if self.m.bdd(t) else 0.0
        return self.m.poly(t)

    def addr(self, c, k):
        return self.m.poly(self.tool.v.num(self.tool.v.at(self.args(c)[k], c.inst.bb)))

    def ret(self, c):
        """address of the returned object"""
        return self.m.poly(self.tool.v.num(self.tool.v.at(c.inst.ops[0], c.inst.bb)))

    def string(self, c, k):
        s = self.tool.v.operand(c.inst, len(c.inst.ops) - len(self.args(c)) + k)
        if s is None:
            raise Missing("string argument of %s" % c.q)
        return self.m.text(s)


def values(tool, opts):
    """documented value of every parameter"""
    r = {}
    for k, d in DEFAULTS[tool].items():
        s = opts.get(k, "")
        r[k] = float(d) if not s else strs.number(s, "int" if k in INTS else "dbl")
        if s.strip().lower().lstrip("+-").startswith("nan") and k not in INTS:
            r[k] = float("nan")
    for k in FLAGS[tool]:
        r[k] = opts.get(k, "") == "1"
    r["file"] = opts.get("file", "") or "graph"
    return r


def valid(tool, p):
    if tool == "gengirg":
        if not (1 <= p["d"] <= 5 and 2 < p["ple"] <= 3 and 1 < p["alpha"]):
            return False
    elif not (0.5 < p["alpha"] <= 1 and 0 <= p["t"] < 1):
        return False
    return 1 <= p["deg"] <= p["n"] - 1 and 1 <= p["threads"] <= MAXT


# ------------------------------------------------------------------------------------------------- scenarios
def typical(tool, rng):
    """one command line with parameters well inside of their ranges"""
    o = {}
    pick = lambda k, f, p=0.6: o.__setitem__(k, f()) if rng.random() < p else None
    pick("n", lambda: str(rng.randint(100, 100000)))
    if tool == "gengirg":
        pick("d", lambda: str(rng.randint(2, 4)))
        pick("ple", lambda: "%.3f" % rng.uniform(2.1, 2.9))
        pick("alpha", lambda: rng.choice(["%.3f" % rng.uniform(1.2, 9), "inf"]))
        seeds = ("wseed", "pseed", "sseed")
    else:
        pick("alpha", lambda: "%.3f" % rng.uniform(0.55, 0.95))
        pick("t", lambda: "%.3f" % rng.uniform(0.05, 0.95))
        seeds = ("rseed", "aseed", "sseed")
    pick("deg", lambda: "%.2f" % rng.uniform(2, 50))
    for s in seeds:
        pick(s, lambda: str(rng.choice([rng.randint(1, 5000), -rng.randint(1, 5000), 0, 2147483647])))
    pick("threads", lambda: str(rng.randint(1, 7)))
    pick("file", lambda: rng.choice(["out", "a/b", "x.y", "graph2"]))
    for f in FLAGS[tool]:
        pick(f, lambda: rng.choice(["0", "1", "1"]))
    return o


def cmdline(o, rng):
    ks = list(o)
    rng.shuffle(ks)
    a = ["tool"]
    for k in ks:
        a += ["-" + k, o[k]]
    return a if len(a) > 1 else ["tool", "-seed", "1"]         # an option the tool does not know


def flow(rep, tmp, conf, defs, tool):
    """C17"""
    T = Tool(rep, tmp, tool, conf, defs)
    rng = random.Random(17)
    check_parse(rep, T, conf)
    res = {R_STEP: [0, None, None], R_FILE: [0, None, None], R_THREADS: [0, None, None]}

    def note(rule, kind, where, text):
        k = 1 if kind == "bad" else 2
        if res[rule][k] is None:
            res[rule][k] = (where, text)
    N = 60 if rep.tier == "quick" else 400
    for k in range(N):
        o = typical(tool, rng) if k else {}
        if 0 < k < 24:                                            # every option alone
            ks = list(DEFAULTS[tool]) + list(FLAGS[tool]) + ["file"]
            full = {}
            while ks[k % len(ks)] not in full:
                full = typical(tool, rng)
            o = {ks[k % len(ks)]: full[ks[k % len(ks)]]}
        S = T.scenario(cmdline(o, rng))
        p = values(tool, S.opts)
        txt = " ".join(S.argv[1:])
        for rule, fn in ((R_STEP, steps), (R_FILE, files), (R_THREADS, threads)):
            try:
                r = fn(T, S, p)
                if r:
                    note(rule, "bad", r[0] or T.where, "arguments '%s': %s" % (txt, r[1]))
                else:
                    res[rule][0] += 1
            except (Missing, Undef, Data) as e:
                note(rule, "unk", T.where, "%s" % (e or type(e).__name__))
    for rule, (n, bad, unk) in res.items():
        rep.count("command lines: " + rule, n)
        if bad:
            rep.bad(rule, bad[0], bad[1], key="%s %s" % (tool, rule), conf=conf)
        elif unk or not n:
            rep.undecided(rule, *(unk or (T.where, "no command line understood")), conf=conf)
        else:
            rep.ok(rule, T.where, "%s: %d command lines" % (tool, n), conf)


def eq(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def expect(S, c, spec):
    """compare the leading arguments of a call with the required values"""
    names = strs.params(ir.demangle(c.callee))
    for k, (what, want) in enumerate(spec):
        if what is None:
            continue
        if what.endswith("object"):
            got = S.addr(c, k)
            if got != want:
                known = S.products.get(got)
                if known is None:
                    raise Missing("%s argument of %s" % (what, c.q))
                return (fview.where(c.inst), "%s: argument %d is the %s, required the %s" % (c.q, k + 1, known, what))
            continue
        if what == "file":
            got = S.string(c, k)
            if got != want:
                return (fview.where(c.inst), "%s: argument %d is \"%s\", required \"%s\"" % (c.q, k + 1, got, want))
            continue
        got = S.num(c, k)
        if what == "parallel":
            if want and not got:
                return (fview.where(c.inst), "%s: runs serially with several threads" % c.q)
            continue
        if not eq(got, want):
            return (fview.where(c.inst), "%s: argument %d (%s) is %g, required %g" % (c.q, k + 1, what, got, want))


def steps(T, S, p):
    act = S.active(T.steps)
    by = {}
    for c in act:
        by.setdefault(c.q.split("::")[1], []).append(c)
    par = ("parallel", p["threads"] > 1)
    S.products = {}
    if T.name == "gengirg":
        seq = ["generateWeights", "generatePositions", "scaleWeights", "generateEdges"] + (["saveDot"] if p["dot"] else [])
    else:
        seq = ["calculateRadiusLikeNetworKit" if p["nkr"] else "calculateRadius", "sampleRadii", "sampleAngles", "generateEdges"]
    for s in seq:
        if len(by.get(s, ())) != 1:
            return (fview.where(by[s][1].inst) if s in by else None, "%s is called %d times" % (s, len(by.get(s, ()))))
    for s in by:
        if s not in seq:
            return (fview.where(by[s][0].inst), "%s is called" % s)
    c = {s: by[s][0] for s in seq}
    pos = {s: act.index(c[s]) for s in seq}
    for s in seq:
        if s.startswith(("generate", "sample")):
            S.products[S.ret(c[s])] = {"generateWeights": "weights", "generatePositions": "positions", "generateEdges": "edges", "sampleRadii": "radii",
                                       "sampleAngles": "angles"}[s]
    n = ("n", p["n"])
    if T.name == "gengirg":
        W, X, E = S.ret(c["generateWeights"]), S.ret(c["generatePositions"]), S.ret(c["generateEdges"])
        w, x, e = ("weights object", W), ("positions object", X), ("edges object", E)
        spec = {"generateWeights": [n, ("ple", p["ple"]), ("wseed", p["wseed"]), par], "generatePositions": [n, ("d", p["d"]), ("pseed", p["pseed"])],
                "scaleWeights": [w, ("deg", p["deg"]), ("d", p["d"]), ("alpha", p["alpha"])], "generateEdges": [w, x, ("alpha", p["alpha"]), ("sseed", p["sseed"])],
                "saveDot": [w, x, e, ("file", p["file"] + ".dot")]}
        before = [("generateWeights", "scaleWeights"), ("scaleWeights", "generateEdges"), ("generatePositions", "generateEdges")]
        if p["dot"]:
            before.append(("generateEdges", "saveDot"))
    else:
        R = ("R", S.m.poly(T.v.num(T.v.term(c[seq[0]].inst))))
        r, a = ("radii object", S.ret(c["sampleRadii"])), ("angles object", S.ret(c["sampleAngles"]))
        spec = {seq[0]: [n, ("alpha", p["alpha"]), ("t", p["t"]), ("deg", p["deg"])], "sampleRadii": [n, ("alpha", p["alpha"]), R, ("rseed", p["rseed"]), par],
                "sampleAngles": [n, ("aseed", p["aseed"]), par], "generateEdges": [r, a, ("t", p["t"]), R, ("sseed", p["sseed"])]}
        before = [(seq[0], "sampleRadii"), ("sampleRadii", "generateEdges"), ("sampleAngles", "generateEdges")]
    for s in seq:
        r = expect(S, c[s], spec[s])
        if r:
            return r
    for x, y in before:
        if pos[x] > pos[y]:
            return (fview.where(c[y].inst), "%s runs before %s" % (y, x))


def files(T, S, p):
    want = {p["file"] + ".txt": p["edge"]} if T.name == "gengirg" else {p["file"] + ".txt": p["edge"], p["file"] + ".hyp": p["coord"]}
    want = sorted(k for k, x in want.items() if x)
    got, w = [], None
    for c in S.active(T.opens):
        ps = strs.params(ir.demangle(c.callee))
        if not ps or not (strs.is_str(ps[0]) or ps[0].startswith("char const*")):
            continue                                              # default constructor
        got.append(S.string(c, 0))
        w = w or (fview.where(c.inst) if got[-1] not in want else None)
    if sorted(got) != want:
        return (w, "files written: %s, required: %s" % (sorted(got), want))


def threads(T, S, p):
    act = S.active(T.steps + T.setthreads)
    st = [c for c in act if c.q == "omp_set_num_threads"]
    if not st:
        return (None, "the number of threads is never set")
    for k, c in enumerate(act):
        if c.q == "omp_set_num_threads":
            continue
        if act.index(st[0]) > k:
            return (fview.where(c.inst), "%s runs before the number of threads is set" % c.q)
    got = S.num(st[-1], 0)
    if got != p["threads"]:
        return (fview.where(st[-1].inst), "number of threads is set to %g, required %g" % (got, p["threads"]))


def check_parse(rep, T, conf):
    """the loop over argv: option names and values stored, in order, for generated command lines"""
    v = T.v
    slots = {}
    for c in T.calls:
        if c.q == "std::map::operator[]":
            a = v.term(c.inst)
            if isinstance(a, terms.Poly) and a.atom() and a.atom()[0] == "slot":
                slots[a.atom()] = c
    sites = []
    for c in T.calls:
        if c.q in (strs.BS + "operator=", strs.BS + "assign") and len(c.inst.ops) == 2:
            t = v.at(c.inst.ops[0], c.inst.bb)
            if isinstance(t, terms.Poly) and t.atom() in slots:
                sites.append((c, t.atom()[2], v.operand(c.inst, 1), t.atom()[1]))
        elif c.q in ("std::map::insert_or_assign", "std::map::emplace", "std::map::try_emplace") and len(c.inst.ops) >= 3:
            sites.append((c, v.sval(c.inst.ops[-2], c.inst), v.sval(c.inst.ops[-1], c.inst), None))
    reads = {t.atom()[1] for c in T.calls if c.q == "std::map::operator[]" for t in [v.term(c.inst)] if t.atom() and t.atom()[0] == "opt"}
    w = fview.where(sites[0][0].inst) if sites else T.where
    if not sites or any(k is None or x is None for _, k, x, _ in sites):
        rep.undecided(R_PARSE, w, "stores into the option map not found", conf)
        return
    if len(reads) != 1 or any(m is not None and m not in reads for _, _, _, m in sites):
        rep.undecided(R_PARSE, w, "options are not read from the parsed map", conf)
        return
    rng = random.Random(5)
    lines = [["t", "-n", "5"], ["t", "-n"], ["t", "x", "-n", "7"], ["t", "-n", "5", "x", "-d", "2"], ["t", "-n", "-5", "-d", "3"], ["t", "-n", "5", "-n", "6"],
             ["t", "-alpha", "2", "-edge", "1", "-dot"], ["t", "-file", "-d", "-d", "2"], ["t", "a", "b", "c"], ["t", "-"], ["t", "--n", "3", "-d", "4"]]
    for _ in range(40):
        a = ["t"]
        for _ in range(rng.randint(1, 7)):
            a.append(rng.choice(["-n", "-d", "-file", "-x", "5", "abc", "-3", "1.5", "-", "--deg"]))
        lines.append(a)
    good, bad, unk = 0, None, None
    for argv in lines:
        S = T.scenario(argv)
        it = Interp(v, lambda e: SModel(1, S.sp, e, S.look))
        try:
            ev = []
            for c, key, val, _ in sites:
                for e, ds in it.points(c.inst.bb, {**S.env}):
                    m = it.model(e)
                    ev.append(([e.get(L.K.atom(), 0) for L in v.loops_of(c.inst.bb)], T.order[c.inst.bb], c.inst.idx, m.text(key), m.text(val), "emplace" in c.q))
            got = {}
            for x in sorted(ev):
                if x[5]:
                    got.setdefault(x[3], x[4])                  # emplace: an existing entry stays
                else:
                    got[x[3]] = x[4]
            want = parse(argv)
            if got != want and bad is None:
                bad = "arguments '%s' are parsed as %s, required %s" % (" ".join(argv[1:]), got, want)
            good += 1
        except (Missing, Undef, Data) as e:
            unk = "arguments '%s': %s" % (" ".join(argv[1:]), e or type(e).__name__)
    rep.count("command lines: " + R_PARSE, good)
    if bad:
        rep.bad(R_PARSE, w, bad, key="%s %s" % (T.name, R_PARSE), conf=conf)
    elif unk or not good:
        rep.undecided(R_PARSE, w, unk or "nothing", conf)
    else:
        rep.ok(R_PARSE, w, "%d command lines" % good, conf)


# ------------------------------------------------------------------------------------------------- C18
EDGES = {
    "gengirg": {"d": ["0", "1", "2", "5", "6", "-1", "100"], "ple": ["2", "2.0001", "2.5", "3", "3.0001", "1.5", "-2.5", "nan", "inf", "5"],
                "alpha": ["1", "1.0001", "0.5", "-3", "inf", "-inf", "nan", "1000", "0"],
                "deg": ["1", "0.999", "0", "-4", "nan", "inf", "N-1", "N-0.5", "N", "N+3", "5.5"], "threads": ["0", "1", "-1", "T", "T+1", "3", "1000"]},
    "genhrg": {"alpha": ["0.5", "0.50001", "0.75", "1", "1.0001", "0.3", "-0.7", "nan", "inf"], "t": ["-0.001", "0", "0.0001", "0.9999", "1", "1.5", "nan", "inf"],
               "deg": ["1", "0.999", "0", "-4", "nan", "inf", "N-1", "N-0.5", "N", "N+3", "5.5"], "threads": ["0", "1", "-1", "T", "T+1", "3", "1000"]},
}


def ranges(rep, tmp, conf, defs, tool):
    """C18"""
    T = Tool(rep, tmp, tool, conf, defs)
    rng = random.Random(18)
    res = {R_REJECT: [0, None, None], R_ACCEPT: [0, None, None]}
    todo = []
    for k, vs in EDGES[tool].items():
        for x in vs:
            for r in range(3 if rep.tier == "quick" else 12):
                todo.append((k, x, r))
    for _ in range(60 if rep.tier == "quick" else 600):
        todo.append((None, None, 1))
    for k, x, r in todo:
        o = typical(tool, rng) if r else {}
        n = int(o.get("n", "10000"))
        for kk, xx in [(k, x)] if k else [(a, rng.choice(b)) for a, b in EDGES[tool].items() if rng.random() < 0.3]:
            if kk == "deg" and xx.startswith("N"):
                xx = repr(eval(xx.replace("N", str(n)))) if rng.random() < 0.5 else "%g" % eval(xx.replace("N", str(n)))
            if kk == "threads" and xx.startswith("T"):
                xx = str(eval(xx.replace("T", str(MAXT))))
            o[kk] = xx
        S = T.scenario(cmdline(o, rng))
        p = values(tool, S.opts)
        good = valid(tool, p)
        rule = R_ACCEPT if good else R_REJECT
        txt = " ".join(S.argv[1:])
        try:
            act = S.active(T.steps)
            ends = []
            for c in S.active(T.exits):
                if "exit" in c.q.lower():
                    code = S.num(c, 0)
                    if code == 0:
                        continue
                ends.append(c)
            for b, t in T.v_returns():
                if S.m.bdd(T.path(b)) and S.m.poly(t) != 0:
                    ends.append(None)
        except (Missing, Undef, Data) as e:
            if res[rule][2] is None:
                res[rule][2] = (T.where, "%s" % (e or type(e).__name__))
            continue
        if good:
            core = {"generateEdges"} <= {c.q.split("::")[1] for c in act}
            if core and not ends:
                res[rule][0] += 1
            elif res[rule][1] is None:
                res[rule][1] = (fview.where(ends[0].inst) if ends and ends[0] else T.where, "arguments '%s' are rejected" % txt)
        else:
            first = act[0] if act else None
            if not act and ends:
                res[rule][0] += 1
            elif res[rule][1] is None:
                res[rule][1] = (fview.where(first.inst) if first else T.where,
                                "arguments '%s': %s" % (txt, "%s is reached" % first.q if first else "the program ends without an error status"))
    for rule, (n, bad, unk) in res.items():
        rep.count("command lines: " + rule, n)
        if bad:
            rep.bad(rule, bad[0], bad[1], key="%s %s" % (tool, rule), conf=conf)
        elif unk or not n:
            rep.undecided(rule, *(unk or (T.where, "no command line understood")), conf=conf)
        else:
            rep.ok(rule, T.where, "%s: %d command lines" % (tool, n), conf)
    # the limit for the number of threads has to be read before it is changed
    for c in T.calls:
        if c.q == "omp_get_max_threads":
            for s in T.setthreads:
                if T.order[s.inst.bb] < T.order[c.inst.bb] or s.inst.bb is c.inst.bb and s.inst.idx < c.inst.idx:
                    rep.bad(R_REJECT, fview.where(c.inst), "the maximum number of threads is read after it was changed", key="%s maxthreads" % tool, conf=conf)


# ------------------------------------------------------------------------------------------------- C19
R_LIST = "edge list file: '<vertices> <edges>', an empty line, then 'u v' for every edge, in order"
R_HYP = "coordinate file: 'radius angle' for every vertex, in order, with at least 17 decimals"
R_DOT = "dot file: one statement per vertex with its weight and position, one 'u -- v' per edge"
R_OPEN = "an output file that cannot be opened is an error"
R_PATH = "the dot file is written under the given name"
MANIP = {"std::fixed": "fixed", "std::scientific": "scientific", "std::defaultfloat": "default"}


NEUTRAL = re.compile(r"^std::(basic_[io]?f?stream|basic_ios|ios_base)::(basic_o?fstream|~basic_o?fstream|open|is_open|close|good|bad|fail|eof|operator bool|operator!|rdbuf|rdstate|"
                     r"flush|exceptions|imbue)$|^std::flush$")


class Emits:
    """what a function writes to its file streams, as terms"""

    def __init__(self, v):
        self.v = v
        self.order = {b: k for k, b in enumerate(v.rpo)}
        self.items = []                       # (root object atom, inst, kind, payload)
        for b in v.rpo:
            for i in b.insts:
                if i.op != "call" or not v.callee(i):
                    continue
                d = ir.demangle(v.callee(i))
                q = policy.qual(d)
                if NEUTRAL.match(q) or d.startswith("llvm."):
                    continue
                if q == "std::ios_base::setf" and len(i.ops) > 1:
                    r = self.root(i.ops[0], b)
                    fl = v.num(v.at(i.ops[1], b)).const()
                    self.items.append((r, i, "mode", {4: "fixed", 256: "scientific"}.get(int(fl) if fl is not None else None)))
                elif q in MANIP or q == "std::ios_base::precision" and len(i.ops) == 2:
                    r = self.root(i.ops[0], b)
                    self.items.append((r, i, "mode", MANIP[q]) if q in MANIP else (r, i, "precision", i.ops[1]))
                elif strs.OUT.match(q):
                    r = self.root(i.ops[0], b)
                    ps = strs.params(d)
                    if q in ("std::endl",):
                        self.items.append((r, i, "text", strs.lit("\n")))
                    elif q in ("std::flush",) or q.endswith("::flush"):
                        continue
                    elif q.endswith("::put"):
                        self.items.append((r, i, "char", i.ops[1]))
                    elif ps and ps[-1] == "char":
                        self.items.append((r, i, "char", i.ops[1]))
                    elif ps and ps[-1] in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short"):
                        self.items.append((r, i, "int", i.ops[-1]))
                    elif ps and ps[-1] == "double":
                        self.items.append((r, i, "dbl", i.ops[-1]))
                    elif ps and (ps[-1] == "char const*" or strs.is_str(ps[-1])):
                        self.items.append((r, i, "text", v.operand(i, 1)))
                    elif ps and ps[-1] == "std::_Setprecision":
                        t = v.num(v.at(i.ops[1], b)).atom()
                        c = v.inst_of(t) if t and t[0] == "call" else None
                        self.items.append((r, i, "precision", c.ops[0] if c is not None else None))
                    elif ps and ps[-1].startswith("std::ios_base& (*)") and getattr(i.ops[1], "kind", "") == "fn":
                        self.items.append((r, i, "mode", MANIP.get(policy.qual(ir.demangle(i.ops[1].v)))))
                    else:
                        self.items.append((r, i, "unknown", q + str(ps[-1:])))
                else:                                             # a stream object handed to something else
                    for o in i.ops:
                        x = fview.rootval(o)
                        if isinstance(x, ir.Inst) and x.op == "alloca" and "fstream" in str(x.x) or q.startswith(("std::ios_base", "std::basic_ios")):
                            self.items.append((self.root(o, b), i, "unknown", q))

    def root(self, o, b):
        t = self.v.stream_root(o, b)
        for m, c in t.t.items():
            for a, e in m:
                if len(m) == 1 and e == 1 and a[0] in ("alloca", "g", "arg"):
                    return a
        return t.atom()

    def render(self, root, env, mk):
        """text written to the stream in one model"""
        it = Interp(self.v, mk)
        ev = []
        for r, i, kind, x in self.items:
            if r != root:
                continue
            for e, ds in it.points(i.bb, env):
                m = it.model(e)
                path = []
                for L in self.v.loops_of(i.bb):
                    path += [self.order[L.h], e.get(L.K.atom(), 0)]
                ev.append((path + [self.order[i.bb], i.idx], m, kind, x, i))
        ev.sort(key=lambda x: x[0])
        out, prec, mode = "", 6, "default"
        for _, m, kind, x, i in ev:
            if x is None or kind == "unknown":
                raise Missing("output of %s" % (x or kind))
            if kind == "text":
                out += m.text(x)
            elif kind == "mode":
                mode = x
            else:
                y = m.poly(self.v.num(self.v.at(x, i.bb)))
                if kind == "precision":
                    prec = int(y)
                elif kind == "char":
                    out += chr(int(y) & 255)
                elif kind == "int":
                    out += "%d" % y
                else:
                    out += ("%.*f" if mode == "fixed" else "%.*e" if mode == "scientific" else "%.*g") % (prec, y)
        return out


def vec(sp, vals, size=8, read=None):
    """reader of a std::vector object over the given values"""
    data = sp.alloc(read or (lambda o: vals[o // 8] if o % 8 == 0 and o // 8 < len(vals) else None), "vector")
    return lambda o: data if o == 0 else data + size * len(vals) if o in (8, 16) else None


def pairs_vec(sp, es):
    return vec(sp, es, 8, lambda o: float(es[o // 8][o % 8 // 4]) if o % 4 == 0 and o // 8 < len(es) else None)


def set_region(sp, addr, read):
    k = (int(addr) >> heap.SHIFT) - 1
    sp.reg[k] = (read, sp.reg[k][1])


def some_edges(n, rng):
    return [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]


def outputs(rep, tmp, conf, defs, tool):
    """C19: edge list and coordinates"""
    T = Tool(rep, tmp, tool, conf, defs)
    v = T.v
    em = Emits(v)
    rng = random.Random(19)
    rules = {".txt": R_LIST, ".hyp": R_HYP} if tool == "genhrg" else {".txt": R_LIST}
    res = {r: [0, None, None] for r in list(rules.values()) + [R_OPEN]}
    for k in range(24 if rep.tier == "quick" else 200):
        n = rng.randint(3, 9)
        o = {"n": str(n), "deg": "1.5", "edge": "1", "coord": "1", "file": "f"}
        if tool == "gengirg":
            del o["coord"]
            o["dot"] = rng.choice(["0", "1"])
        S = T.scenario(cmdline(o, rng))
        try:
            act = {c.q.split("::")[1]: c for c in S.active(T.steps)}
            es = some_edges(n, rng)
            set_region(S.sp, S.ret(act["generateEdges"]), pairs_vec(S.sp, es))
            if tool == "gengirg":
                set_region(S.sp, S.ret(act["generateWeights"]), vec(S.sp, [1.0] * n))
                set_region(S.sp, S.ret(act["generatePositions"]), vec(S.sp, [0.0] * n, 24))
            if tool == "genhrg":
                ra, an = [rng.uniform(0, 20) for _ in range(n)], [rng.uniform(0, 6.28) for _ in range(n)]
                set_region(S.sp, S.ret(act["sampleRadii"]), vec(S.sp, ra))
                set_region(S.sp, S.ret(act["sampleAngles"]), vec(S.sp, an))
            opened = {}
            for c in S.active(T.opens):
                if strs.params(ir.demangle(c.callee)):
                    opened.setdefault(S.string(c, 0), []).append(c)
        except (Missing, Undef, Data, KeyError) as e:
            for r in rules.values():
                res[r][2] = res[r][2] or (T.where, str(e) or type(e).__name__)
            continue
        for ext, rule in rules.items():
            cs = opened.get("f" + ext, [])
            if len(cs) != 1:
                res[rule][1] = res[rule][1] or (T.where, "file f%s is opened %d times" % (ext, len(cs)))
                continue
            c = cs[0]
            w = fview.where(c.inst)
            try:
                txt = em.render(em.root(c.inst.ops[0], c.inst.bb), S.env, lambda e: SModel(1, S.sp, e, S.look))
                if ext == ".txt":
                    bad = None if txt == "%d %d\n\n" % (n, len(es)) + "".join("%d %d\n" % e for e in es) else \
                        "%d vertices, edges %s: the file is %r" % (n, es, txt[:200])
                else:
                    bad = hyp(txt, ra, an)
                if bad:
                    res[rule][1] = res[rule][1] or (w, bad)
                else:
                    res[rule][0] += 1
            except (Missing, Undef, Data) as e:
                res[rule][2] = res[rule][2] or (w, str(e) or type(e).__name__)
            bad = None
            try:
                bad = unopened(v, em, S, T, c)
                res[R_OPEN][0] += 1
            except (Missing, Undef, Data) as e:
                res[R_OPEN][2] = res[R_OPEN][2] or (w, str(e) or type(e).__name__)
            if bad:
                res[R_OPEN][1] = (w, bad)
    report(rep, T.name, res, T.where, conf)


def unopened(v, em, S, T, c):
    """c opens a file and fails: some error has to end the run before anything is written"""
    env = dict(S.env)
    root = em.root(c.inst.ops[0], c.inst.bb)
    n = 0
    for x in T.calls:
        m = re.match(r"std::(?:basic_\w*stream|basic_ios)::(is_open|good|operator bool|operator!|fail|bad|operator void\*)$", x.q)
        if m and x.inst.ty != "void" and em.root(x.inst.ops[0], x.inst.bb) == root:
            env[("call",) + v.tag + (v.sid, x.inst.id)] = 0.0 if m.group(1) in ("is_open", "good", "operator bool", "operator void*") else 1.0
            n += 1
    m = SModel(1, S.sp, env, S.look)
    it = Interp(v, lambda e: SModel(1, S.sp, e, S.look))
    for r, i, kind, x in em.items:
        if r == root and kind not in ("mode", "precision") and it.points(i.bb, env):
            return "the file is written without being open"
    if not any(m.bdd(T.path(x.inst.bb)) and (x.q != "exit" or m.poly(v.num(v.at(x.inst.ops[0], x.inst.bb)))) for x in T.exits):
        return "no error is raised if the file cannot be opened"


def hyp(txt, ra, an):
    ls = txt.split("\n")
    if ls[-1] != "" or len(ls) != len(ra) + 1:
        return "%d vertices: %d lines" % (len(ra), len(ls) - 1)
    for k, l in enumerate(ls[:-1]):
        f = l.split(" ")
        if len(f) != 2:
            return "line %r" % l
        for x, y, what in ((f[0], ra[k], "radius"), (f[1], an[k], "angle")):
            if abs(float(x) - y) > 1e-9:
                return "line %d: %s instead of the %s %.9f" % (k, x, what, y)
            digits = re.sub(r"e.*", "", x).replace(".", "").replace("-", "").lstrip("0")
            dec = len(x.split(".")[1]) if "." in x and "e" not in x else 0
            if len(digits) < 17 and dec < 17:
                return "%s is written as %s: %d significant digits, 17 are needed" % (what, x, len(digits))


def report(rep, name, res, where, conf):
    for rule, (n, bad, unk) in res.items():
        rep.count("instances: " + rule, n)
        if bad:
            rep.bad(rule, bad[0], bad[1], key="%s %s" % (name, rule), conf=conf)
        elif unk or not n:
            rep.undecided(rule, *(unk or (where, "nothing understood")), conf=conf)
        else:
            rep.ok(rule, where, "%s: %d instances" % (name, n), conf)


def savedot(rep, tmp, conf, defs):
    """C19: girgs::saveDot"""
    M = units.build(tmp, "dot", [units.SRC + "/girgs/source/Generator.cpp"], defs)
    f = next((x for x in M.fns.values() if not x.decl and policy.qual(x.dname) == "girgs::saveDot"), None)
    if f is None:
        raise AnalysisError("girgs::saveDot not found")
    rep.unit("girgs/source/Generator.cpp: saveDot [%s]" % (" ".join(defs) or "debug"))
    v = SView(f)
    where = fview.where(next(i for i in f.insts() if i.op == "call"))
    T = Tool.__new__(Tool)
    T.v, T.f, T.order, T.full, T.where = v, f, {b: k for k, b in enumerate(v.rpo)}, {}, where
    T.calls = [c for c in v.calls() if c.q]
    T.steps = []
    T.opens = [c for c in T.calls if re.match(r"std::basic_(o?f)?stream::(basic_ofstream|basic_fstream|open)$|std::basic_ofstream::(basic_ofstream|open)$", c.q)]
    T.exits = [c for c in T.calls if c.q in ("exit", "std::exit", "abort", "std::abort", "__cxa_throw")]
    em = Emits(v)
    rng = random.Random(20)
    res = {r: [0, None, None] for r in (R_DOT, R_OPEN, R_PATH)}
    for k in range(30 if rep.tier == "quick" else 300):
        S = Scenario(T, ["x"])
        n, D = rng.randint(0, 6), rng.randint(1, 5)
        W, X = [rng.uniform(0.5, 40) for _ in range(n)], [[rng.random() for _ in range(D)] for _ in range(n)]
        es = some_edges(n, rng) if n else []
        sp = S.sp
        A = lambda i: ("arg", v.sid, i)
        inner = [vec(sp, x) for x in X]
        outer = sp.alloc(lambda o: inner[o // 24](o % 24) if o // 24 < n else None, "positions")
        objs = (vec(sp, W), lambda o: outer if o == 0 else outer + 24 * n if o in (8, 16) else None, pairs_vec(sp, es), lambda o: None)
        for i, r in enumerate(objs):
            S.env[A(i)] = sp.alloc(r, "argument")
        S.look = lambda m, a: "the.dot" if a[0] == "strobj" and m.poly(a[1]) == S.env[A(3)] else "?"
        mk = lambda e: SModel(1, sp, e, S.look)
        S.m = mk(S.env)
        try:
            cs = [c for c in S.active(T.opens) if strs.params(ir.demangle(c.callee))]
            if len(cs) != 1:
                res[R_PATH][1] = res[R_PATH][1] or (where, "%d files are opened" % len(cs))
                continue
            c = cs[0]
            if S.string(c, 0) != "the.dot":
                res[R_PATH][1] = res[R_PATH][1] or (fview.where(c.inst), "the file is named '%s'" % S.string(c, 0))
            res[R_PATH][0] += 1
            txt = em.render(em.root(c.inst.ops[0], c.inst.bb), S.env, mk)
            bad = dot(txt, W, X, es)
            if bad:
                res[R_DOT][1] = res[R_DOT][1] or (fview.where(c.inst), bad)
            res[R_DOT][0] += 1
            bad = unopened(v, em, S, T, c)
            if bad:
                res[R_OPEN][1] = res[R_OPEN][1] or (fview.where(c.inst), bad)
            res[R_OPEN][0] += 1
        except (Missing, Undef, Data) as e:
            for r in res:
                res[r][2] = res[r][2] or (where, str(e) or type(e).__name__)
    report(rep, "saveDot", res, where, conf)


def dot(txt, W, X, es):
    m = re.match(r"\s*(strict\s+)?graph\s+\w*\s*\{(.*)\}\s*$", txt, re.S)
    if not m:
        return "not an undirected graph: %r" % txt[:80]
    nodes, edges = {}, []
    for st in m.group(2).split(";"):
        st = st.strip()
        a = re.match(r"(\d+)\s*\[(.*)\]$", st, re.S)
        b = re.match(r"(\d+)\s*--\s*(\d+)$", st)
        if a:
            if int(a.group(1)) in nodes:
                return "vertex %s appears twice" % a.group(1)
            nodes[int(a.group(1))] = a.group(2)
        elif b:
            edges.append((int(b.group(1)), int(b.group(2))))
        elif st and not re.match(r"\w+\s*=\s*\w+$", st):
            return "statement %r" % st[:80]
    if sorted(nodes) != list(range(len(W))):
        return "%d vertices: statements for %s" % (len(W), sorted(nodes))
    if edges != es:
        return "edges %s are written as %s" % (es, edges)
    for k, at in nodes.items():
        l, p = re.search(r'label="([^"]*)"', at), re.search(r'pos="([^"]*)"', at)
        try:
            ok = l and p and abs(float(l.group(1)) - W[k]) < 0.0051
            q = [float(x) for x in p.group(1).split(",")] if ok else []
            ok = ok and len(q) == len(X[k]) and all(abs(a - b) < 1e-5 for a, b in zip(q, X[k]))
        except ValueError:
            ok = False
        if not ok:
            return "vertex %d of weight %.3f at %s is written as [%s]" % (k, W[k], ["%.4f" % x for x in X[k]], at)
