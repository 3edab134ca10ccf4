"""Record layouts of the current source as clang lays them out: member offsets and types (no private name is needed by the checks)."""
import os
import re
import subprocess
import ir
from core import REPO


def records(src, defs=(), extra=(), many=False):
    """{record: (size, [(offset, type, member name)])} with the direct members only"""
    cmd = ["clang++", "-std=gnu++17", "-w", "-fsyntax-only", *[x for x in extra if x.startswith("-I")], "-I" + os.path.join(ir.SA, "stub"),
           "-I" + os.path.join(REPO, "source/girgs/include"), "-I" + os.path.join(REPO, "source/hypergirgs/include"), "-DSYSTEM_LINUX",
           *["-D" + d for d in defs], *(["-ferror-limit=0"] if many else []), "-Xclang", "-fdump-record-layouts", src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out, cur = {}, None
    for ln in r.stdout.splitlines():
        m = re.match(r"^\s*(\d+)(?::[\d-]+)? \| (\s*)(.*)$", ln)
        if m:
            off, ind, txt = int(m.group(1)), len(m.group(2)), m.group(3)
            if ind == 0:
                cur = re.sub(r"^(class|struct|union) ", "", txt).strip()
                cur = re.sub(r" \(empty\)$", "", cur)
                out.setdefault(cur, [0, []])
                new = not out[cur][1]
            elif ind == 2 and cur is not None and new:
                p = txt.rsplit(" ", 1)
                if "(base)" in txt or "(primary base)" in txt or len(p) != 2:
                    out[cur][1].append((off, txt, None))
                else:
                    out[cur][1].append((off, norm(p[0]), p[1]))
            continue
        m = re.search(r"\[sizeof=(\d+)", ln)
        if m and cur is not None and not out[cur][0]:
            out[cur][0] = int(m.group(1))
    return out


def norm(t):
    return re.sub(r"\b(class|struct) ", "", t).strip()


def find(recs, pat):
    for k in recs:
        if re.search(pat, norm(k)):
            return recs[k]
    return None


def member(rec, pat, k=0):
    """offset of the k-th member whose type matches"""
    ms = [o for o, t, n in rec[1] if re.search(pat, t)]
    return ms[k] if len(ms) > k else None
