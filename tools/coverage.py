"""Line coverage of /repo/vmmlib by the quick checks (gcov): what is never run or never instantiated.

    python3 tools/coverage.py [PID...]
"""
import glob, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
from vm import run, props

run.CONFIGS["debug"] = (["-O0", "--coverage", "-fno-inline"], {})
run.CONFIGS["asan"] = run.CONFIGS["debug"]
out = {}
for pid in sys.argv[1:] or sorted(props.PROPS):
    r = run.Runner(pid, 1, "quick")
    prof = props.PROPS[pid]
    prof.configs = (lambda rng, tier: ("debug", "noconv2")) if False else ("debug",)
    try:
        prof.run(r)
        d = r.dir
        for g in glob.glob(d + "/*.gcda"):
            subprocess.run(["gcov", "-r", "-s", "/repo", "-o", d, g], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for f in glob.glob(d + "/*.gcov"):
                src = None
                for l in open(f, errors="replace"):
                    m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", l)
                    if not m:
                        continue
                    c, n, t = m.group(1).strip(), int(m.group(2)), m.group(3)
                    if n == 0:
                        if t.startswith("Source:"):
                            src = t[7:]
                        continue
                    if src and "vmmlib/" in src:
                        k = (os.path.basename(src), n)
                        v = 0 if c == "-" else 1 if c.startswith("#") or c.startswith("=") else 2
                        out[k] = max(out.get(k, (0, ""))[0], v), t
                os.unlink(f)
    finally:
        r.close()
files = sorted({k[0] for k in out})
for f in files:
    ls = sorted((n, v, t) for (g, n), (v, t) in out.items() if g == f)
    ex = sum(v == 2 for _, v, _ in ls)
    no = [(n, t) for n, v, t in ls if v == 1]
    print("== %s: %d executed, %d not" % (f, ex, len(no)))
    for n, v, t in ls:
        s = t.strip()
        if v == 1:
            print("  NOT RUN %5d: %s" % (n, t))
        elif v == 0 and s.endswith(";") and not s.startswith(("//", "*", "template", "typedef", "using", "friend", "#", "static const", "class")):
            print("  NO CODE %5d: %s" % (n, t))
