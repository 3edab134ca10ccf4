#!/usr/bin/env python3
"""confirm a planted bug in a scratch copy of /repo and see which checks catch it:
   bug.py ID...          (scratch: /tmp/m/repo, configured like /opt/vp/build.sh)
   bug.py --checks ID... only the checks"""
import json
import os
import subprocess as sp
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/m/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(c, cwd=R, **kw):
    return sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)


def stable():
    b = BASE
    for k in ("stable", "passed", "tests", "stable_tests"):
        if k in b:
            return set(b[k])
    return set(b)


def tests():
    e = dict(os.environ, OMP_NUM_THREADS="8", OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive")
    sh("ctest --test-dir _build -j4 --timeout 120 --output-junit %s/_build/j.xml" % R, env=e)
    return {c.get("name") for c in ET.parse(R + "/_build/j.xml").getroot().iter("testcase") if c.get("status") == "run" and c.find("failure") is None}


def demo(d):
    e = {k: v for k, v in os.environ.items() if not k.startswith("OMP")}
    try:
        r = sh("bash %s/demo.sh" % d, timeout=300, env=e)
        return r.returncode, r.stdout[-300:]
    except sp.TimeoutExpired:
        return 124, "timeout"


def checks(props, tree=R):
    def one(p):
        r = sp.run(["python3", "sa/check.py", p], cwd=V, env=dict(os.environ, VH_REPO=tree), stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
        return p, r.returncode, r.stdout
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, props))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = "--checks" in sys.argv
    props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for i in ids:
        d = V + "/seeded/" + i
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
        meta = json.load(open(d + "/meta.json"))
        if not only:
            r = sh("ninja -C _build")
            rc0, o0 = demo(d)
        r = sh("git apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            continue
        msg = ""
        if not only:
            b = sh("ninja -C _build")
            miss = stable() - tests() if b.returncode == 0 else {"build failed " + b.stdout[-500:]}
            rc1, o1 = demo(d)
            msg = "demo %d/%d tests-broken %s %s" % (rc0, rc1, sorted(miss)[:4], "OK" if rc0 == 0 and rc1 != 0 and not miss else "*** NOT VALID *** " + o0 + "|" + o1)
        res = checks(props if "--own" not in sys.argv else [meta["property"]])
        hit = [p for p, rc, o in res if rc == 1]
        odd = [(p, rc, o[-300:]) for p, rc, o in res if rc not in (0, 1)]
        print("%-26s %s %s caught by %s %s" % (i, meta["property"], msg, hit, odd), "" if meta["property"] in hit else "   <<<< MISSED", flush=True)
        if "-v" in sys.argv or "--verbose" in sys.argv:
            for p, rc, o in res:
                if rc == 1 or p == meta["property"]:
                    print("   ", o.strip().replace("\n", "\n    ")[:1500])
        sh("git checkout -q -- .")


main()
