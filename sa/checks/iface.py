"""Interface stability (C24): record layouts and exported functions are the same for all build configurations."""
import os
import re
import subprocess
import ir
import layout
import units
from core import REPO

R_LAY = "size and members of a public type are the same with and without assertions"
R_SYM = "the library exports the same functions with and without assertions"
LIBS = ("girgs", "hypergirgs")


def headers(lib):
    d = os.path.join(REPO, "source", lib, "include", lib)
    return sorted(f for f in os.listdir(d) if f.endswith((".h", ".hpp")))


def sources(lib):
    d = os.path.join(REPO, "source", lib, "source")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def flags(defs):
    return ["-w", "-I" + os.path.join(ir.SA, "stub"), "-I" + os.path.join(REPO, "source/girgs/include"), "-I" + os.path.join(REPO, "source/hypergirgs/include"),
            "-DSYSTEM_LINUX", *["-D" + d for d in defs]]


def declared(tmp, lib, defs):
    """qualified names of everything the public headers of the library declare in its namespace"""
    tu = os.path.join(tmp, "all_%s.cpp" % lib)
    with open(tu, "w") as f:
        for h in headers(lib):
            f.write("#include <%s/%s>\n" % (lib, h))
    r = subprocess.run(["clang++", "-std=gnu++17", "-fsyntax-only", *flags(defs), "-Xclang", "-ast-list", tu], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return tu, {x.strip() for x in r.stdout.splitlines() if x.startswith(lib + "::")}


def bare(n):
    """name without template arguments"""
    out, d = "", 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            out += c
    return out


def all_records(tmp, lib, tu, names, defs):
    out = {}
    use = os.path.join(tmp, "use_%s.cpp" % lib)
    with open(use, "w") as f:
        f.write(open(tu).read())
        for k, n in enumerate(sorted(x for x in names if re.fullmatch(r"[\w:]+", x))):
            f.write("using vh_%d = ::%s;\nunsigned long vh_s%d = sizeof(vh_%d);\n" % (k, n, k, k))
    for s in [use] + sources(lib):
        rs = layout.records(s, list(defs), (), True)          # names that are no types are refused and skipped
        for n, (size, ms) in rs.items():
            b = bare(layout.norm(n))
            # samplers instantiated with a lambda expression belong to one translation unit: they cannot be shared
            if b.startswith(lib + "::") and b in names and "(lambda" not in n and "(anonymous" not in n:
                out.setdefault(layout.norm(n), (size, [tuple(x) for x in ms]))
    return out


def exported(lib, defs):
    """functions of external linkage which the sources of the library define"""
    out = {}
    for s in sources(lib):
        r = subprocess.run(["clang++", "-std=gnu++17", "-O0", "-S", "-emit-llvm", *flags(defs), s, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode:
            raise ir.AnalysisError("clang failed on " + s)
        for m in re.finditer(r'^define (?:dso_local )?([^@\n]*)@("?)([^"(\s]+)\2\(', r.stdout, re.M):
            if not re.search(r"\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally)\b", m.group(1)):
                out[m.group(3)] = s
    return out


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.splitlines()))


def c24(rep, tmp, conf, defs):
    for lib in LIBS:
        tu, nd = declared(tmp, lib, ())
        _, nr = declared(tmp, lib, ("NDEBUG",))
        if not nd or not nr:
            rep.undecided(R_LAY, lib, "headers not understood", conf)
            continue
        D = all_records(tmp, lib, tu, nd | nr, ())
        N = all_records(tmp, lib, tu, nd | nr, ("NDEBUG",))
        rep.unit("public headers of %s: %d record types" % (lib, len(set(D) | set(N))))
        by = {}
        for n in sorted(set(D) & set(N)):
            good = D[n] == N[n]
            o = by.setdefault(bare(n), [n, None, n])
            if not good and o[1] is None:
                o[1], o[2] = difference(n, D[n], N[n]), n
        for b, (n, diff, n0) in sorted(by.items()):
            if diff is None:
                rep.ok(R_LAY, b, "%d bytes, %d members" % (D[n0][0], len(D[n0][1])), conf)
            else:
                a, z = [sorted(y[1] for y in x[n0][1]) for x in (D, N)]
                rep.bad(R_LAY, b, diff, "record:%s:%s" % (b, re.sub(r"\s", "", ",".join(multiset_diff(a, z) + ["-" + t for t in multiset_diff(z, a)]))), conf)
        for n in sorted({bare(x) for x in set(D) ^ set(N)} - set(by)):
            if (n in nd) != (n in nr):
                rep.bad(R_LAY, n, "the type exists in one configuration only", "record:" + n, conf)
        E, F = exported(lib, ()), exported(lib, ("NDEBUG",))
        nm = demangle(sorted(set(E) | set(F)))
        decl = nd | nr
        for x in sorted(set(E) & set(F)):
            rep.ok(R_SYM, nm[x][:120], "exported by both", conf)
        for x in sorted(set(E) ^ set(F)):
            full = nm[x]
            if any(full.startswith(d + "(") or (" " + d + "(") in full for d in decl):
                rep.bad(R_SYM, full[:160], "exported by %s builds only" % ("debug" if x in E else "release"), "function:" + re.sub(r"\s", "", full), conf)


def multiset_diff(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def difference(n, d, r):
    if d[0] != r[0]:
        txt = "%s has %d bytes with assertions and %d without" % (n, d[0], r[0])
    else:
        txt = "%s has different members with and without assertions" % n
    for x in d[1]:
        if x not in r[1]:
            return txt + ", member %s of type %s at offset %d with assertions" % (x[2], x[1], x[0])
    for x in r[1]:
        if x not in d[1]:
            return txt + ", member %s of type %s at offset %d without assertions" % (x[2], x[1], x[0])
    return txt
