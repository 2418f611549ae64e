#!/usr/bin/env python3
"""tools/seedtool.py DEFS.py [ID...]: make the planted bugs that DEFS.py describes.

DEFS.py calls seed(id, property, file, [(old, new), ...], needs, breaks, demo).
Every bug is confirmed in a scratch copy (builds, stable tests pass, demo fails
with it and passes without) and then written to seeded/<id>/.
tools/seedtool.py --check [ID...]: run the checks against the planted bugs.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDDIR", "/tmp/seedwork")
REPO = S + "/repo"
DEFS = []

DEMO = '''#!/bin/bash
# exit 0 iff the property holds; runs in the repository, after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
r=$PWD
g++ -std=c++11 -w -O0 %s -include cstdint -I"$r" "$d/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
HEAD = '''#include <vmmlib/vmmlib.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <cmath>
#include <iostream>
#include <sstream>
#include <vector>
#include <cstring>
using namespace vmml;
static int bad = 0;
#define CHECK( c ) do { if( !( c )) { std::cerr << "violated: " #c << std::endl; bad = 1; } } while( 0 )
#define NEAR( a, b ) CHECK( std::fabs( double( a ) - double( b )) < 1e-4 )
int main()
{
%s
    return bad;
}
'''


def seed(id, prop, file, subs, needs, breaks, demo, flags=""):
    if isinstance(subs, tuple):
        subs = [subs]
    DEFS.append(dict(id=id, prop=prop, file=file, subs=subs, needs=needs, breaks=breaks, demo=demo, flags=flags))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def scratch():
    if not os.path.isdir(REPO):
        os.makedirs(S, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", REPO])
        subprocess.check_call(["cp", "-a", "/opt/vp", S + "/vp"])
        for root, _, fs in os.walk(S + "/vp"):
            for f in fs:
                p = os.path.join(root, f)
                try:
                    t = open(p).read()
                except UnicodeDecodeError:
                    continue
                if "/repo" in t or "/opt/vp" in t:
                    open(p, "w").write(re.sub(r"/repo\b", REPO, t).replace("/opt/vp", S + "/vp"))
        for b in ("_build", "_build_old"):
            shutil.rmtree(os.path.join(REPO, b), ignore_errors=True)
    sh("git -C %s checkout -q -- . ; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || (cd %s && git pull -q /repo)" % (REPO, REPO, REPO))


def tests():
    r = sh("bash %s/vp/test.sh %s/out.json" % (S, S))
    try:
        o = json.load(open(S + "/out.json"))
    except OSError:
        return None, r.stdout[-800:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set(base if isinstance(base, list) else base.get("passed", base.get("stable", [])))
    return names - set(o["passed"]), ""


def make(d):
    tmp = S + "/cand"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    p = os.path.join(REPO, d["file"])
    t = open(p).read()
    for sub in d["subs"]:
        old, new = sub[0], sub[1]
        n = t.count(old)
        if len(sub) > 2:  # which occurrence
            i = -1
            for _ in range(sub[2]):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
            continue
        if n != 1:
            return "%d occurrences of %r" % (n, old)
        t = t.replace(old, new)
    demo = DEMO % d["flags"]
    open(tmp + "/demo.sh", "w").write(demo)
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/demo.cpp", "w").write(d["demo"] if "int main" in d["demo"] else HEAD % d["demo"])
    r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
    if r.returncode != 0:
        return "demo fails on the unchanged tree: " + r.stdout[-1500:]
    open(p, "w").write(t)
    try:
        diff = sh("git -C %s diff" % REPO).stdout
        first = sh("git -C /repo rev-list --max-parents=0 HEAD | tail -1").stdout.strip()
        mine = sh("git -C /repo log --format=%h --grep='^fix:' --grep='^hook' HEAD").stdout.split()
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git -C %s diff -U0" % REPO).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                b = sh("git -C /repo blame -s -L%d,+%d -- %s" % (a, n, d["file"])).stdout
                if any(l.lstrip("^").startswith(tuple(mine)) for l in b.split("\n") if l):
                    return "changes lines of a commit of ours: " + b
        bad, msg = tests()
        if bad is None or bad:
            return "tests: %s %s" % (bad, msg)
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode == 0:
            return "demo passes with the change"
        if r.returncode == 2:
            return "demo does not compile with the change: " + r.stdout[-800:]
    finally:
        sh("git -C %s checkout -q -- ." % REPO)
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    dst = os.path.join(V, "seeded", d["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(tmp, dst)
    return None


def check(ids, seedno="1", only=None):
    scratch()
    miss = []
    for i in ids:
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (REPO, V, i))
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        try:
            r = sh("VMML_REPO=%s %s/bin/check %s --seed %s" % (REPO, V, m["property"], seedno))
        finally:
            sh("git -C %s checkout -q -- ." % REPO)
        ok = r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout
        print(i, m["property"], "caught" if ok else "MISSED (%d)" % r.returncode, r.stdout.split("\n")[0][:150] if ok else r.stdout[-300:], flush=True)
        if not ok:
            miss.append(i)
    print("missed:", miss)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        sd = "1"
        if len(a) > 1 and a[1].startswith("--seed="):
            sd = a.pop(1)[7:]
        check(a[1:] or sorted(x for x in os.listdir(os.path.join(V, "seeded"))), sd)
    else:
        exec(open(a[0]).read())
        scratch()
        for d in DEFS:
            if len(a) > 1 and d["id"] not in a[1:]:
                continue
            if len(a) == 1 and os.path.isdir(os.path.join(V, "seeded", d["id"])):
                continue
            e = make(d)
            print(d["id"], "FAILED: " + e if e else "ok", flush=True)
