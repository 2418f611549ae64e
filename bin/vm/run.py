"""Build the executor from /repo, run scripts, validate traces with TLC."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VMML_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


CONFIGS = {
    # name: (compiler flags, script options)
    "debug": (["-O0"], {}),
    "o2": (["-O2"], {}),
    "ndebug": (["-O2", "-DNDEBUG"], {"oob": False}),
    # assertions without safe accessors, and the other way round
    "unsafe": (["-O1", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_THROW_EXCEPTIONS"], {"oob": False}),
    "safe": (["-O1", "-DNDEBUG", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS", "-DVMMLIB_THROW_EXCEPTIONS"], {}),
    "noconv": (["-O1", "-DVMMLIB_NO_CONVERSION_OPERATORS"], {"noconv": True}),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=float-cast-overflow,float-divide-by-zero",
              "-fno-omit-frame-pointer"], {}),
    "native": (["-O3", "-mfma", "-mavx2"] if "avx2" in open("/proc/cpuinfo").read() and " fma " in open("/proc/cpuinfo").read()
               else ["-O3"], {}),
    "clang": (["-O2"], {"cxx": "clang++"}),
    "cxx17": (["-O1", "-std=c++17"], {}),
}


def config(name):
    """a name like v1.8.0 is a build of that version"""
    if name in CONFIGS:
        return CONFIGS[name]
    return (["-O0"], {"version": tuple(map(int, name[1:].split(".")))})


def versions():
    s = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = dict(re.findall(r"set\(VERSION_(MAJOR|MINOR|PATCH|ABI)\s+(\d+)\)", s))
    return {k: v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH", "ABI")}


def write_version(path, v):
    s = open(os.path.join(REPO, "vmmlib/version.in.hpp")).read()
    for k, x in v.items():
        s = s.replace("@VERSION_%s@" % k, str(x))
    s = re.sub(r"@\w+@", "0", s)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(s)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ""
        if isinstance(o, bytes):
            o = o.decode("utf-8", "replace")
        return None, o


class Runner:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.dir = tempfile.mkdtemp(prefix="vm_%s_" % pid)
        write_version(os.path.join(self.dir, "inc/vmmlib/version.hpp"), versions())
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.pool0 = cf.ThreadPoolExecutor(1)
        self.mcpool = cf.ThreadPoolExecutor(2)
        self.exes = {}
        self.stats = dict(events=0, behaviours=0, states=0, transitions=0, traces=0, inconclusive=0,
                          mc_states=0, mc_transitions=0, replayed=0)
        self.ops = {}
        self.samples = []
        self.tlc_cmd = None
        self.extra = {}

    def close(self):
        for p in (self.pool, self.pool0, self.mcpool):
            p.shutdown(cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # --- build -----------------------------------------------------------
    def flags(self, cfg):
        fl, opt = config(cfg)
        inc = os.path.join(self.dir, "inc")
        if "version" in opt:
            inc += cfg
            v = opt["version"]
            write_version(os.path.join(inc, "vmmlib/version.hpp"), dict(versions(), MAJOR=v[0], MINOR=v[1], PATCH=v[2]))
        # whatever is not initialized is not zero
        return ["-std=c++11", "-w", "-ftrivial-auto-var-init=pattern", "-include", "cstdint", "-I" + inc, "-I" + REPO, "-I" + HARN] + fl

    def sanity(self):
        p = os.path.join(self.dir, "sanity.cpp")
        with open(p, "w") as f:
            f.write("#include <vector>\n#include <iostream>\nint main(){ std::vector<int> v(3); std::cout << v.size(); }\n")
        rc, out = sh(["g++", "-std=c++11", p, "-o", p + ".x"], 120)
        if rc != 0:
            raise CheckError("compiler does not work: " + out[-500:])

    def compile_all(self, jobs):
        """jobs: [(cfg, [inst])] -> {cfg: exe}"""
        tasks = []
        for cfg, insts in jobs:
            uniq = {i.key: i for i in insts}
            groups = {}
            for i in uniq.values():
                groups.setdefault(i.header, []).append(i)
            n = 0
            tus = [("main", os.path.join(HARN, "main.cpp"))]
            total = len(uniq)
            per = max(1, -(-total // NPROC)) if len(jobs) == 1 else max(1, -(-total // 4))
            for h, xs in groups.items():
                for o in range(0, len(xs), per):
                    src = os.path.join(self.dir, "%s_%d.cpp" % (cfg, n))
                    with open(src, "w") as f:
                        f.write('#include "%s"\n' % h)
                        for j, x in enumerate(xs[o:o + per]):
                            f.write('static Add a%d_("%s", []() -> Machine* { return new %s; });\n' % (j, x.key, x.cpp))
                    tus.append(("t%d" % n, src))
                    n += 1
            for name, src in tus:
                tasks.append((cfg, name, src))

        def comp(t):
            cfg, name, src = t
            obj = os.path.join(self.dir, "%s_%s.o" % (cfg, name))
            cmd = [config(cfg)[1].get("cxx", "g++")] + self.flags(cfg) + ["-c", src, "-o", obj]
            rc, out = sh(cmd, 600)
            return cfg, src, obj, rc, out
        res = list(self.pool.map(comp, tasks))
        bad = [r for r in res if r[3] != 0]
        if bad:
            self.sanity()
            cfg, src, obj, rc, out = bad[0]
            if rc is None or rc < 0 or "error" not in out or "fatal error: Killed" in out:
                raise CheckError("compiler failed: " + out[-800:])
            if src.endswith("main.cpp") and src.startswith(HARN):
                pass
            path = self.replay_path("build.txt")
            with open(path, "w") as f:
                f.write("The public interface used by the machines of this property does not compile.\n")
                f.write("flags: %s\nsource:\n%s\n\n%s" % (" ".join(self.flags(cfg)), open(src).read(), out))
            raise Violation("interface does not compile: " + next((l for l in out.splitlines() if "error" in l), ""), path)

        def link(cfg):
            exe = os.path.join(self.dir, "ex_" + cfg)
            objs = [r[2] for r in res if r[0] == cfg]
            rc, out = sh(["g++"] + config(cfg)[0] + objs + ["-o", exe], 300)
            if rc != 0:
                raise CheckError("link failed: " + out[-800:])
            return cfg, exe
        self.exes.update(dict(self.pool.map(link, [c for c, _ in jobs])))

    # --- execute -----------------------------------------------------------
    def execute(self, cfg, script, trace, timeout=300):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0",
                   LC_ALL="C", MALLOC_PERTURB_="90")
        wd = tempfile.mkdtemp(dir=self.dir)
        rc, out = sh(["timeout", str(timeout), self.exes[cfg], script, trace], timeout + 30, env=env, cwd=wd)
        shutil.rmtree(wd, ignore_errors=True)
        if rc in (2, 3, 4):
            raise CheckError("executor: %s" % out[-500:])
        return rc, out

    # --- validate ------------------------------------------------------------
    def tlc(self, args, env, timeout, workers=1, mem="1500m"):
        md = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseSerialGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE"] + args
        rc, out = sh(cmd, timeout, env=dict(os.environ, **env), cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def validate(self, trace, timeout=600):
        """-> ('ok', n) | ('rej', index of the event) | ('err', index or None, text)"""
        rc, out = self.tlc(["-config", "Trace.cfg", "Trace.tla"], {"VMTRACE": trace}, timeout)
        m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        g = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if g:
            self.stats["states"] += int(g.group(2))
            self.stats["transitions"] += max(0, int(g.group(1)) - 1)
        if m and rc == 0:
            return ("ok", int(m.group(1)))
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        if m and rc == 0:
            return ("rej", int(m.group(1)))
        if rc is None:
            return ("err", None, "TLC timeout")
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        e = [l for l in out.splitlines() if "rror" in l or "verflow" in l or "Attempted" in l]
        return ("err", int(ls[-1]) if ls else None, " | ".join(e)[:600] or out[-600:])

    def replay_path(self, suffix):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s_%s" % (self.pid, suffix))

    # --- one chunk -----------------------------------------------------------
    def chunk(self, cfg, behaviours, name):
        """behaviours: [[lines]].  Returns None or (behaviour prefix, reason)."""
        todo = list(behaviours)
        for attempt in range(8):
            if not todo:
                return None
            script = os.path.join(self.dir, name + ".script")
            trace = os.path.join(self.dir, name + ".ndjson")
            lines, owner = [], []
            for bi, b in enumerate(todo):
                for li, l in enumerate(b):
                    lines.append(l)
                    owner.append((bi, li))
            with open(script, "w") as f:
                f.write("\n".join(lines) + "\n")
            rc, out = self.execute(cfg, script, trace, 120 if self.tier == "quick" else 400)
            evs = []
            with open(trace) as f:
                for l in f:
                    if l.endswith("\n"):
                        evs.append(l)
            ns = [int(re.search(r'"n":(\d+)', l).group(1)) for l in evs]
            crash = None
            if rc != 0:
                # the command after the last recorded one (possibly skipped
                # ones in between) did not return
                last = ns[-1] if ns else 0
                crash = last
                with open(trace, "w") as f:
                    f.write("".join(evs))
            if evs:
                r = self.validate(trace)
            else:
                r = ("ok", 0)
            if r[0] == "rej":
                n = ns[r[1] - 1]
                bi, li = owner[n - 1]
                return (todo[bi][:li + 1], "event rejected: " + evs[r[1] - 1].strip(), lines[:n])
            if r[0] == "err":
                if r[1] is None or r[1] > len(ns):
                    raise CheckError("TLC: " + r[2])
                bi, _ = owner[ns[r[1] - 1] - 1]
                self.stats["inconclusive"] += 1
                if self.stats["inconclusive"] <= 3:
                    sys.stderr.write("inconclusive behaviour dropped: %s\n  %s\n" % (evs[r[1] - 1].strip()[:300], r[2][:500]))
                del todo[bi]
                continue
            if crash is not None:
                # find the culprit within the behaviour
                if crash >= len(owner):
                    raise CheckError("executor ended with %s after the script: %s" % (rc, out[-300:]))
                bi, _ = owner[crash - 1] if crash else (0, 0)
                bj, _ = owner[crash]
                bi = max(bi, bj)
                return (todo[bi], "execution died (%s): %s" % (rc, out[-600:]), None if rc in (124, 137, -9) else lines)
            self.stats["events"] += len(evs)
            self.stats["behaviours"] += len(todo)
            self.stats["traces"] += 1
            for l in evs:
                op = re.search(r'"op":"([^"]*)"', l).group(1)
                if op == "@":
                    kd = re.search(r'"kind":"([^"]*)"', l).group(1)
                else:
                    self.ops[kd + "." + op] = self.ops.get(kd + "." + op, 0) + 1
            if len(self.samples) < 3 and evs:
                self.samples.append([json.loads(l) for l in evs[:6]])
            return None
        raise CheckError("too many inconclusive behaviours")

    def confirm(self, cfg, lines, tag):
        """Does the single behaviour fail again?"""
        script = os.path.join(self.dir, tag + ".script")
        trace = os.path.join(self.dir, tag + ".ndjson")
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out = self.execute(cfg, script, trace, 60)
        evs = [l for l in open(trace) if l.endswith("\n")]
        if evs:
            with open(trace, "w") as f:
                f.write("".join(evs))
            r = self.validate(trace)
            if r[0] == "rej":
                n = int(re.search(r'"n":(\d+)', evs[r[1] - 1]).group(1))
                return ("rej", lines[:n], evs[r[1] - 1].strip())
            if r[0] == "err":
                return ("err", lines, r[2])
        if rc != 0:
            return ("crash", lines, "execution died (%s): %s" % (rc, out[-600:]))
        return None

    def shrink(self, cfg, lines, budget=12):
        """drop commands while the failure stays (cheap greedy halves)"""
        head, body, last = lines[:1], lines[1:-1], lines[-1:]
        t0 = time.time()
        n = 2
        while body and budget > 0 and time.time() - t0 < 40:
            size = max(1, len(body) // n)
            for o in range(0, len(body), size):
                cand = body[:o] + body[o + size:]
                budget -= 1
                r = self.confirm(cfg, head + cand + last, "shrink")
                if r and r[0] != "err" and len(r[1]) <= len(head + cand + last):
                    body = (head + cand + last if r[0] == "crash" else r[1])[1:-1]
                    last = r[1][-1:]
                    break
                if budget <= 0:
                    break
            else:
                if size == 1:
                    break
                n *= 2
        return head + body + last

    def run_batches(self, batches):
        """batches: [(cfg, [behaviour])]"""
        futs = []
        weights = [sum(len(b) for b in bs) for _, bs in batches]
        total = sum(weights) or 1
        n = 0
        for (cfg, bs), w in zip(batches, weights):
            k = max(1, min(len(bs), round(self.extra.get("chunks", NPROC) * w / total)))
            for c in range(k):
                part = bs[c::k]
                if part:
                    futs.append((cfg, self.pool.submit(self.chunk, cfg, part, "c%d_%s" % (n, cfg))))
                    n += 1
        bad = []
        for cfg, f in futs:
            r = f.result()
            if r:
                bad.append((cfg, r))
        for cfg, (lines, why, before) in bad:
            c = self.confirm(cfg, lines, "confirm")
            if c and c[0] == "err":
                raise CheckError("cannot judge the repetition: %s" % c[2][:500])
            if c:
                if "(124)" not in c[2]:
                    lines = self.shrink(cfg, c[1])
                    c = self.confirm(cfg, lines, "confirm") or c
                self.violation(cfg, lines, c[2])
            # not alone: perhaps it depends on what ran before
            c = self.confirm(cfg, before, "confirm") if before else None
            if c and c[0] != "err":
                self.violation(cfg, c[1], c[2] + " (only after the behaviours before it)")
            if "execution died" in why:
                raise CheckError("not repeated: %s" % why[:500])
            # the same calls, another result: the recorded trace is the witness
            self.violation(cfg, before, why + " (recorded once; the outcome of the same calls varies)")

    insts = {}

    def violation(self, cfg, lines, why):
        key = lines[0].split()[1]
        path = self.replay_path("%s_%s.replay" % (cfg, re.sub(r"\W", "", key)[:60]))
        with open(path, "w") as f:
            f.write("# property %s, configuration %s, reproduce with: bin/replay %s\n" % (self.pid, cfg, path))
            f.write("# %s\n" % why.replace("\n", "\n# "))
            for key in sorted({l.split()[1] for l in lines if l.startswith("@")}):
                inst = self.insts[key]
                f.write("#! %s | %s | %s | %s\n" % (cfg, inst.key, inst.header, inst.cpp))
            f.write("\n".join(lines) + "\n")
        raise Violation(why, path)

    # --- model checking -------------------------------------------------------
    def model_check(self, module, cfg, env=None, timeout=600, workers=2, export=False, mem="3g"):
        for attempt in range(3):
            rc, out = self.tlc(["-seed", str(self.seed + 1000 * attempt), "-config", cfg, module + ".tla"], env or {}, timeout,
                               workers=workers, mem=mem)
            if rc == 0 and "No error has been found" in out:
                break
            # the random choices may have left the range of TLC's integers
            if "verflow" not in out or "is violated" in out:
                raise CheckError("model checking %s %s failed (%s): %s" % (module, env, rc, out[-1500:]))
        else:
            raise CheckError("model checking %s %s failed (%s): %s" % (module, env, rc, out[-1500:]))
        g = re.findall(r"(\d+) states generated, (\d+) distinct", out)[-1]
        self.stats["mc_states"] += int(g[1])
        self.stats["mc_transitions"] += int(g[0])
        if not export:
            return []
        res = []
        for l in out.splitlines():
            if l.startswith('"{'):
                res.append(json.loads(json.loads(l)))
        return res
