#!/usr/bin/env python3
"""tools/mutate.py collect [PID...]|list FILE|run N SEED [FILE...]

Mutation analysis of the quick checks at seed 1.  `collect` records, on the
unchanged tree, the scripts of every check and the traces of the executor.
`run` makes N random small changes to the library, one at a time, and looks
for one check whose trace changes (TLC would then see another behaviour);
changes that no trace notices and that the stable tests do not notice either
are printed: either they do not alter behaviour, or a check misses them.
"""
import concurrent.futures as cf
import json, os, pickle, random, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from vm import run, props
W = os.environ.get("MUTDIR", "/tmp/mut")
LIBDIR = "/repo/vmmlib"
CONFS = {"P27": ("ndebug", "noconv")}
MATS = ["P01", "P03", "P08", "P09", "P10", "P04", "P05", "P06", "P07", "P02", "P11", "P12", "P28", "P26", "P30", "P22", "P23", "P19", "P27"]
VECS = ["P13", "P14", "P15", "P16", "P17", "P02", "P30", "P06", "P12", "P18", "P20", "P21", "P23", "P24", "P25", "P28", "P27", "P08"]
ORDER = {"matrix.hpp": MATS, "vector.hpp": VECS, "quaternion.hpp": ["P18", "P19", "P20", "P30", "P12", "P27"], "aabb.hpp": ["P21", "P12", "P30", "P27"],
         "frustum.hpp": ["P22", "P12", "P27"], "frustum_culler.hpp": ["P23", "P27"], "intersection.hpp": ["P24", "P27"],
         "lowpass_filter.hpp": ["P25", "P27"], "qr_decomposition.hpp": ["P26"], "util.hpp": ["P30", "P07", "P01"], "math.hpp": ["P30"],
         "matrix_functors.hpp": ["P01", "P05", "P30", "P10", "P03"], "version.in.hpp": ["P29"], "enable_if.hpp": MATS, "exception.hpp": ["P02"]}


def collect(pids):
    os.makedirs(W + "/gold", exist_ok=True)
    for pid in pids or sorted(props.PROPS):
        r = run.Runner(pid, 1, "quick")
        rec, comp = [], []
        r.run_batches = lambda bs: rec.extend(bs)
        r.compile_all = lambda jobs: comp.extend(jobs)
        props.PROPS[pid].run(r)
        confs = {}
        for c, insts in comp:
            if c not in CONFS.get(pid, ("debug",)) and not c.startswith("v"):
                continue
            confs[c] = (list({i.key: i for i in insts}.values()), [b for cc, bs in rec if cc == c for b in bs])
        if pid == "P02":
            confs["debug"] = (confs["debug"][0], [b for _, bs in rec for b in bs])
        out = {c: ([(i.key, i.header, i.cpp) for i in insts], bs) for c, (insts, bs) in confs.items()}
        pickle.dump(out, open(W + "/gold/%s.pkl" % pid, "wb"))
        r.close()
        d = W + "/gold/" + pid
        shutil.rmtree(d, ignore_errors=True)
        res = trial("/repo", pid, out, d)
        again = trial("/repo", pid, out, d + "_")
        same = all(open("%s/%s.trace" % (d, c), "rb").read() == open("%s_/%s.trace" % (d, c), "rb").read() for c in out)
        shutil.rmtree(d + "_")
        print(pid, res, again, "same" if same else "NOT DETERMINISTIC", {c: len(bs) for c, (_, bs) in out.items()}, flush=True)


def trial(repo, pid, conf, d, gold=None):
    """None, or what shows the difference"""
    os.makedirs(d, exist_ok=True)
    for c, (insts, bs) in conf.items():
        fl, opt = run.config(c)
        inc = os.path.join(d, "inc" + c)
        run.REPO = "/repo"
        v = dict(run.versions())
        if "version" in opt:
            v.update(zip(("MAJOR", "MINOR", "PATCH"), opt["version"]))
        s = open(os.path.join(repo, "vmmlib/version.in.hpp")).read()
        for k, x in v.items():
            s = s.replace("@VERSION_%s@" % k, str(x))
        os.makedirs(inc + "/vmmlib", exist_ok=True)
        open(inc + "/vmmlib/version.hpp", "w").write(re.sub(r"@\w+@", "0", s))
        flags = ["-std=c++11", "-w", "-ftrivial-auto-var-init=pattern", "-include", "cstdint", "-I" + inc, "-I" + repo, "-I" + run.HARN] + fl
        objs = []
        hs = {}
        for i in insts:
            hs.setdefault(i[1], []).append(i)
        srcs = [os.path.join(run.HARN, "main.cpp")]
        for n, (h, xs) in enumerate(hs.items()):
            p = os.path.join(d, "%s%d.cpp" % (c, n))
            with open(p, "w") as f:
                f.write('#include "%s"\n' % h)
                for j, x in enumerate(xs):
                    f.write('static Add a%d_("%s", []() -> Machine* { return new %s; });\n' % (j, x[0], x[2]))
            srcs.append(p)
        for n, p in enumerate(srcs):
            o = os.path.join(d, "%s%d.o" % (c, n))
            rc, out = run.sh([opt.get("cxx", "g++")] + flags + ["-c", p, "-o", o], 600)
            if rc != 0:
                return "does not compile"
            objs.append(o)
        exe = os.path.join(d, "x" + c)
        run.sh(["g++"] + fl + objs + ["-o", exe], 300)
        script, trace = os.path.join(d, c + ".script"), os.path.join(d, c + ".trace")
        with open(script, "w") as f:
            for b in bs:
                f.write("\n".join(b) + "\n")
        wd = os.path.join(d, "wd")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        env = dict(os.environ, LC_ALL="C", MALLOC_PERTURB_="90")
        rc, out = run.sh(["timeout", "100", exe, script, trace], 130, env=env, cwd=wd)
        for o in objs:
            os.remove(o)
        os.remove(exe)
        if gold:
            if rc != 0:
                return "died"
            a, b = open(trace, "rb").read(), open("%s/%s.trace" % (gold, c), "rb").read()
            if a != b:
                return "differs"
        elif rc != 0:
            return "died %s" % rc
    return None


RULES = [
    (r"(?<=[\w)\]]) < (?=[\w(-])", [" <= "]), (r"(?<=[\w)\]]) > (?=[\w(-])", [" >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + ", " / "]), (r" / ", [" * "]),
    (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["+="]), (r"/=", ["*="]),
    (r"(?<![\w.<])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])3(?![\w.])", ["2"]),
    (r"(?<![\w])(\d+)\.5\b", ["0.25"]), (r"\b1\.0f?\b", ["2.0"]), (r"\b2\.0f?\b", ["1.0"]), (r"\b0\.0f?\b", ["1.0"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bx\(\)", ["y()"]), (r"\by\(\)", ["z()", "x()"]), (r"\bz\(\)", ["x()", "w()"]), (r"\bw\(\)", ["z()"]),
    (r"\bM\b", ["N"]), (r"\bN\b", ["M"]), (r"\bM\b", ["( M - 1 )"]), (r"\bi\b", ["j", "0"]), (r"\bj\b", ["i", "0"]),
    (r"\brow\b", ["col"]), (r"\bcol(_index|umn)?\b", ["0"]), (r"\brow(_index)?\b", ["0"]),
    (r"std::f?abs\(", ["("]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
    (r"\bleft\(\)", ["right()"]), (r"\bright\(\)", ["left()"]), (r"\btop\(\)", ["bottom()"]), (r"\bbottom\(\)", ["top()"]), (r"\bnear_?\w*\(\)", ["farPlane()"]), (r"\bfar_?\w*\(\)", ["nearPlane()"]),
    (r"\b_min\b", ["_max"]), (r"\b_max\b", ["_min"]), (r"(?<=[(,=] )-(?=[\w(])", [""]), (r"(?<=return )-", [""]), (r"!(?=[\w(])", [""]),
    (r"\.begin\(\)", [".begin() + 1"]), (r"\.end\(\)", [".end() - 1"]), (r"\brhs\b", ["lhs"]), (r"\b[abuvt]\b(?=[.[ ])", ["c"]),
    (r"\bT\((?=[ \w])", ["int("]), (r"static_cast<\s*T\s*>", ["static_cast< float >"]), (r"\bdouble\b", ["float"]), (r"\bsize_t\b", ["unsigned char"]),
    (r"(?<=[*+] )rhs\b", ["1"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
]


def mutants(f, old=False):
    s = open(os.path.join(LIBDIR, f)).read()
    lines = s.split("\n")
    code = []
    com = off = False
    for n, l in enumerate(lines):
        t = l
        if t.strip().startswith("#if 0"):
            off = True
        elif off and re.match(r"\s*#(else|endif)", t):
            off = False
        if off:
            continue
        if com:
            if "*/" in t:
                com = False
            continue
        if t.lstrip().startswith("/*"):
            com = "*/" not in t
            continue
        t = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group()), t)
        st = t.strip()
        if not st or st.startswith(("#", "template", "using", "namespace", "typedef", "friend")) or "VMMLIB_ERROR" in st or "VMMLIB_HERE" in st:
            continue
        code.append((n, t))
    o = set()
    for n, t in code:
        for pat, reps in RULES:
            for m in re.finditer(pat, t):
                for r in reps:
                    l = lines[n][:m.start()] + r + lines[n][m.end():]
                    if l != lines[n]:
                        o.add((n, l))
        st = t.strip()
        if st.endswith(";") and ("=" in st or re.match(r"[\w.:]+\(.*\);$", st)) and not re.match(r"(const |T |size_t |return|virtual|static|inline|double |float |bool |void )", st) and st.count("(") == st.count(")"):
            o.add((n, re.match(r"\s*", lines[n]).group() + ";"))
        m = re.match(r"(\s*)if\s*\((.*)\)\s*$", t)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            for c in ("true", "false"):
                o.add((n, "%sif( %s )" % (m.group(1), c)))
    return [(f, n, lines[n], l) for n, l in sorted(o)]


killers = {}
lock = threading.Lock()
GOLD = {}


def gold(pid):
    with lock:
        if pid not in GOLD:
            GOLD[pid] = pickle.load(open(W + "/gold/%s.pkl" % pid, "rb"))
        return GOLD[pid]


def worker(w):
    d = W + "/w%d" % w
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["cp", "-a", "/opt/vp", d + "/vp"])
        for root, _, fs in os.walk(d + "/vp"):
            for f in fs:
                p = os.path.join(root, f)
                try:
                    t = open(p).read()
                except UnicodeDecodeError:
                    continue
                if "/repo" in t or "/opt/vp" in t:
                    open(p, "w").write(re.sub(r"/repo\b", d + "/repo", t).replace("/opt/vp", d + "/vp"))
        for b in ("_build", "_build_old"):
            shutil.rmtree(d + "/repo/" + b, ignore_errors=True)
    return d


def tests(d):
    run.sh(["bash", d + "/vp/test.sh", d + "/out.json"], 600)
    try:
        o = json.load(open(d + "/out.json"))
    except (OSError, ValueError):
        return False
    return not set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])


def one(m, w):
    f, n, old, new = m
    d = worker(w)
    src = open(os.path.join(LIBDIR, f)).read()
    ls = src.split("\n")
    ls[n] = new
    p = os.path.join(d, "repo/vmmlib", f)
    for x in os.listdir(LIBDIR):
        if x.endswith(".hpp"):
            shutil.copy(os.path.join(LIBDIR, x), os.path.join(d, "repo/vmmlib", x))
    with open(p, "w") as h:
        h.write("\n".join(ls))
    try:
        # does it compile on its own, in a use of the whole header?
        rc, _ = run.sh(["g++", "-std=c++11", "-w", "-fsyntax-only", "-include", "cstdint", "-I" + d + "/repo", "-x", "c++", "/dev/null", "-include", "vmmlib/vmmlib.hpp"], 60)
        if rc != 0:
            return "invalid"
        order = list(ORDER[f])
        near = sorted(((abs(n - k[1]), v) for k, v in list(killers.items()) if k[0] == f))[:6]
        first = []
        for _, v in near:
            if v not in first:
                first.append(v)
        order.sort(key=lambda x: first.index(x) if x in first else 99)
        for pid in order:
            r = trial(d + "/repo", pid, gold(pid), d + "/t", W + "/gold/" + pid)
            if r:
                if r == "does not compile":
                    return "invalid"
                with lock:
                    killers[(f, n)] = pid
                return "killed %s %s" % (pid, r)
        if not tests(d):
            return "tests"
        return "SURVIVED"
    finally:
        with open(p, "w") as h:
            h.write(src)


def main(a):
    if a[0] == "collect":
        return collect(a[1:])
    if a[0] == "list":
        for m in mutants(a[1]):
            print(m[1] + 1, m[2].strip(), " -> ", m[3].strip())
        return
    n, seed = int(a[1]), int(a[2])
    files = a[3:] or [f for f in ORDER if f not in ("enable_if.hpp",)]
    rng = random.Random(seed)
    ms = [m for f in files for m in mutants(f)]
    print(len(ms), "possible")
    done = set()
    log = W + "/log"
    if os.path.exists(log):
        done = {l.split("\t")[0] for l in open(log)}
    key = lambda m: "%s:%d:%s" % (m[0], m[1] + 1, m[3].strip())
    ms = [m for m in ms if key(m) not in done]
    rng.shuffle(ms)
    ms = ms[:n]
    ids = list(range(int(os.environ.get("MUTW", "8"))))
    free = list(ids)
    cnt = {}

    def job(m):
        with lock:
            w = free.pop()
        try:
            r = one(m, w)
        except Exception as e:
            r = "error %s" % e
        finally:
            with lock:
                free.append(w)
        with lock:
            k = r.split()[0]
            cnt[k] = cnt.get(k, 0) + 1
            with open(log, "a") as h:
                h.write("%s\t%s\t%s\n" % (key(m), r, m[2].strip()))
            if r == "SURVIVED" or r.startswith("error"):
                print(r, "%s:%d" % (m[0], m[1] + 1), m[2].strip(), " => ", m[3].strip(), flush=True)
    with cf.ThreadPoolExecutor(len(ids)) as ex:
        list(ex.map(job, ms))
    print(cnt)


main(sys.argv[1:])
