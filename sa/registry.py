"""property id -> analysis, and the description that goes into the evidence file"""
import importlib
import os
import par

BOTH = [("debug", ()), ("release", ("NDEBUG",))]

IDENT = ("identity of closed forms: the value of the function is extracted from the SSA form of the current source as a normal form over its "
         "arguments (global value numbering in an algebraic domain) and compared with the required normal form; equality is syntactic or, failing that, "
         "decided by interpreting both normal forms over random points of the stated domain (Schwartz-Zippel style identity test on terms, the program is not run)")
TB = ["clang 18 front end and LLVM mem2reg/SROA/inliner", "the normal-form algebra in sa/terms.py, sa/bdd.py, sa/fview.py"]
REAL = "values are real numbers / unbounded integers: rounding and wrap-around are outside the claim unless stated"

DIMS = (1, 2, 3, 4, 5)


def by_dim(tier):
    return [(c, d, D) for c, d in BOTH for D in DIMS]


def c11(tier):
    return [(c, d, D, b) for c, d in BOTH for D in DIMS for b in (False, True)]


def radix(tier):
    return [(c, d, l) for c, d in BOTH for l in ("girgs", "hypergirgs")]


RADIX = ("data flow of the radix sort: element copies, counter increments, zero fills and prefix sums are recognised in the SSA form as terms over the members of the sorter, "
         "the members as terms over the key width; required for each key width from 1 to 32 bits (domain evaluation of the terms): digits order the keys, every pass uses the counters of its own digit, "
         "buffers alternate, blocks and chunks tile the elements, first positions follow the prefix-sum recurrence")

PROV = ("bit provenance dataflow: for every result bit the set of input bits it is copied from, propagated through the fully unrolled SSA form of deposit/extract "
        "(shifts, masks, or, pdep, pext); required: the exact interleaving")

EDGE = ("typestate dataflow over the edge callback and generateEdges: buffers move between not-copied / copied / empty; plus matching of the address terms of the "
        "copied ranges and of the loop domains")
CASES = "control conditions of the call sites, extracted as BDDs over normal forms, decided for every case of the dispatch value"

DOMAINS = ("iteration domains, guards and call arguments of the sampler functions are extracted from SSA form as terms over memory reads; on a finite family of "
           "generated consistent data-structure instances these terms denote finite sets, which are compared with the required sets (domain evaluation of extracted "
           "terms; the program is not run and no path is enumerated)")

CLI = ("interprocedural data flow of option values: string constants and string objects are propagated through the SSA form of main (with all helpers inlined), so "
       "that every step argument, path condition and output item becomes a term over the option values; these terms are compared with the documentation on "
       "generated command lines (absent, typical and boundary values; domain evaluation of terms, the program is not run)")
LAYOUT = ("record layouts and external definitions of the current source, computed by the compiler front end for both configurations, are compared type by type "
          "and symbol by symbol")
TOOLS = [(c, d, t) for c, d in BOTH for t in ("gengirg", "genhrg")]

FILING = ("what the filing code stores, per vertex, per layer and per cell, is extracted from the SSA form as terms over the loop counters (recurrences for prefix sums, "
          "memory reads for table look-ups) and compared with the required terms; the share of every thread in the repair of empty cells is a closed form in the number of cells "
          "and threads whose union is compared with the whole table (terms are evaluated, the program is not run)")

RACES = ("every function the compiler outlines for a parallel region is analysed with all its callees: a forward must analysis of held locks, a barrier-segment "
         "(may happen in parallel) analysis, ownership of objects selected by thread number, worksharing index or ticket, and the address terms of all "
         "loads, stores, atomics and library calls; two accesses by different threads that can be simultaneous must not touch the same byte (address terms "
         "are evaluated for small teams; the program is not run)")


HANG = ("every function the compiler outlines for a parallel region is analysed with all its callees: path conditions of barriers and work-sharing constructs (BDDs over "
        "thread number and team size) must agree for all threads; locks must be released on every path to the function's end and taken in one order; every loop that "
        "waits must be released by a thread that does not wait itself, for every team size the runtime may grant, with the waiting threads notified on every path")


def omp_units(tier):
    import units
    out = []
    for lib in ("girgs", "hypergirgs"):
        d = units.SRC + "/" + lib + "/source"
        for f in sorted(os.listdir(d)):
            if f.endswith((".cpp", ".cc", ".cxx")):
                src = "%s/source/%s" % (lib, f)
                parts = 2 if src == "girgs/source/Generator.cpp" else 1
                out += [(c, dd, src, k, parts) for c, dd in BOTH for k in range(parts)]
    return sorted(out, key=lambda x: -x[4])


DET = ("values of nondeterministic sources are followed through the SSA form of every library function (interprocedural taint, feasibility of paths under a non-negative seed as BDDs over the "
       "seed argument); every seeding and every use of a random engine is extracted as terms (address, seed value, loop domain, thread number, work item) and compared with the required "
       "functions; schedules of work-sharing loops, tickets and locks decide which contexts depend on timing; writes to globals are searched (terms are evaluated, the program is not run)")


def det_units(tier):
    return omp_units(tier) + [(c, d, "@girg_tree.cpp#%d" % D) for c, d in BOTH for D in DIMS] + [(c, d, "@hrg_tree.cpp") for c, d in BOTH]


GHOST = ("both configurations of every library are compiled without optimisation and compared instruction by instruction; instructions that only debug builds have are ghost code: "
         "an interprocedural write-effect analysis (points-to over explicit memory accesses) decides that ghost code writes only places no ordinary instruction reads, that no ordinary "
         "instruction uses its values, that its branches rejoin before the next ordinary instruction, and that it reaches no synchronisation, exit or exception; instructions that only "
         "release builds have may only return early in the threshold model")


def ghost_units(tier):
    import units
    out = []
    for lib in ("girgs", "hypergirgs"):
        d = units.SRC + "/" + lib + "/source"
        out.append(("debug against release", (), lib, [d + "/" + f for f in sorted(os.listdir(d)) if f.endswith((".cpp", ".cc", ".cxx"))]))
    for t in ("cli", ):
        for r, _, fs in os.walk(units.SRC + "/" + t):
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    out.append(("debug against release", (), os.path.basename(r) + "_" + f, [os.path.join(r, f)]))
    return out


PROF = ("taint and control dependence from the profiling flag of the samplers' constructors and from the clock, interprocedurally over unoptimised IR with points-to; every dependent "
        "instruction may only pass values on, print, or drive a timer; what it writes must not be read by independent instructions, what it controls must rejoin")

SEARCH = ("partial correctness of the searches: the condition of every edge that leaves the search loop, the loop's recurrences and the value returned are extracted from the SSA form "
          "as terms; required: leaving implies that the degree function's value at exactly the returned argument is within the tolerance (inductive over the recurrences; "
          "terms are evaluated on boundary models, the program is not run)")

MODS = {
    "C20": ("ghost", "c20", ghost_units, GHOST),
    "C29": ("prof", "c29", lambda t: [(c, d, l) for c, d in BOTH for l in ("girgs", "hypergirgs")], PROF),
    "C01": ("det", "c01", det_units, DET),
    "C03": ("race", "c03", omp_units, HANG),
    "C02": ("race", "c02", omp_units, RACES),
    "C17": ("cli", "flow", TOOLS, CLI),
    "C18": ("cli", "ranges", TOOLS, CLI),
    "C19": ("cli", [("outputs", TOOLS), ("savedot", BOTH)], None, CLI),
    "C05": ("pairs", [("c05", by_dim)], None, DOMAINS),
    "C07": ("pairs", [("c07", by_dim)], None, DOMAINS),
    "C06": ("pairsh", "c06", BOTH, DOMAINS),
    "C08": ("pairsh", [("c08", [(c, d, k) for k in range(4) for c, d in BOTH])], None, DOMAINS),
    "C04": ("gen", [("c04", lambda t: [(c, d, l) for c, d in BOTH for l in ("girgs", "hypergirgs")])], None, EDGE),
    "C13": ("gen", "c13", BOTH, CASES),
    "C14": ("gen", "c14", BOTH, IDENT),
    "C15": ("gen", "c15", BOTH, CASES + "; " + IDENT),
    "C16": ("gen", "c16", BOTH, "interprocedural write-effect analysis: a points-to pass over SSA form follows every pointer derived from the argument through calls and "
            "parallel regions; required: no store, mutating library call or move through such a pointer"),
    "C09": ("geom", [("c09_girg", by_dim), ("c09_hyper", BOTH)], None, IDENT),
    "C11": ("geom", "c11", c11, PROV),
    "C12": ("geom", [("c12_girg", by_dim), ("c12_hyper", BOTH)], None, IDENT),
    "C23": ("part", [("c23_girg", by_dim), ("c23_hyper", BOTH)], None, FILING),
    "C21": ("geom", "c21", BOTH, IDENT),
    "C10": ("hyper", "c10", BOTH, IDENT),
    "C22": ("hyper", "c22", BOTH, IDENT),
    "C27": ("search", "c27", BOTH, SEARCH),
    "C28": ("radix", "c28", radix, RADIX),
    "C24": ("iface", "c24", [("debug+release", ())], LAYOUT),
    "C26": ("hyper", "c26", BOTH, IDENT),
}


def lookup(prop):
    mod, fn, confs, expl = MODS[prop][:4]
    m = importlib.import_module("checks." + mod)
    parts = fn if isinstance(fn, list) else [(fn, confs)]

    def run(rep, tier, tmp):
        jobs = []
        for f, cf in parts:
            for c in (cf(tier) if callable(cf) else cf):
                jobs.append((getattr(m, f), (c[0], list(c[1])) + tuple(c[2:])))
        par.pool(rep, tmp, jobs)
    return run, {"explanation": expl, "trusted": TB, "assumptions": [REAL]}
