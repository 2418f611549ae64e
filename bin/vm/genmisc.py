"""Scripts for quantization, streams, filter, QR, fillers and version."""
import math
from fractions import Fraction as Fr

from .gengeo import *

ITYPES = {"unsigned char": (0, 255), "signed char": (-128, 127), "char": (-128, 127),
          "unsigned short": (0, 65535), "short": (-32768, 32767)}


def g_quant(rng, inst, nops, weights, **opt):
    M, N, lo, hi, _ = inst.par
    un = 0 if inst.T not in UNSIGNED else 1
    steps = hi - lo

    def rngs():
        q = pick(rng, [(6, 1), (2, 2), (1, 4), (0.5, 3), (0.5, 5)])
        a = rng.choice([-1, 0, -100, 1, rng.randint(-500, 500), -255])
        w = rng.choice([1, 2, 3, 5, 10, 51, 100, 127, 200, 255, rng.randint(1, 1500)])
        if not inst.isf:
            q = 1
            w = rng.choice([w, rng.choice([1, 2, 4, 16, 64, 256, 512]), rng.randint(1, 1500)])
        if un:
            a = abs(a) + rng.choice([60, 60, 50])
        return q, a, a + w

    def data(q, a, b):
        out = rng.random() < 0.4
        v = []
        for _ in range(M * N):
            x = rng.randint(a, b)
            if rng.random() < 0.25:
                x = rng.choice([a, b])
            if out and rng.random() < 0.3:
                x = rng.choice([a - rng.randint(1, 50), b + rng.randint(1, 50)])
            v.append(x)
        return J("ld", 0, q, *v)

    def qto():
        q, a, b = rngs()
        return [J("ld", 3, q, a, b), data(q, a, b), "qto"]

    def own():
        q, a, b = rngs()
        if rng.random() < 0.5:
            # all on one side of zero
            d = abs(a) + abs(b)
            a, b = rng.choice([(a + d, b + d), (a - d, b - d)]) if not un else (a + d, b + d)
        return [data(q, a, b), "q"]

    def deq():
        w = rng.choice([1, 2, 10, 51, 100])
        a = rng.choice([-1, 0, 1, -w, -50, 20])
        if un:
            a = abs(a)
        if not inst.isf:
            w = rng.choice([w, 255, 1000, 64, rng.randint(1, 1500)])
        return [J("ld", 3, pick(rng, [(5, 1), (1, 2 if inst.isf else 1)]), a, a + w),
                J("ld", 1, 1, *[pick(rng, [(3, rng.randint(lo, hi)), (1, lo), (1, hi), (2, rng.randint(max(lo, -5), 5))])
                                for _ in range(M * N)]), "deq"]
    def far():
        s = rng.choice([1, 1, -1]) if not un else 1
        e = rng.randint(14, 100 if inst.T == 'float' else 900) if inst.T in FLOATS and rng.random() < 0.9 else rng.randint(14, 14 if inst.T == 'short' else 30) if inst.T not in FLOATS else 0
        return qto()[:2] + [J("far", rng.randrange(M), rng.randrange(N), s, e)]
    table = [("qto", 5, qto), ("far", 2, far), ("own", 4, own), ("deq", 4, deq), ("then", 3, lambda: "deq"), ("back", 1, lambda: "back"),
             ("again", 1, lambda: rng.choice(["q", "qto"]))]
    return behaviour(rng, inst, nops, weigh(table, weights), [], scale_k(rng, inst, 15))


def fifteenth(j):
    return [j * 4369 - (j < 0), (65536 if j < 0 else 0) + j * 4369]


def g_quantw(rng, inst, nops, weights, **opt):
    M, N, signed = inst.par

    def rngs():
        a = rng.choice([-1, 0, -100, 1, rng.randint(-500, 500), -256])
        return pick(rng, [(6, 1), (2, 2), (1, 4)]), a, a + rng.choice([1, 2, 4, 16, 256, 1024, 3, 5, 100, 255, rng.randint(1, 1500)])

    def data(q, a, b):
        out = rng.random() < 0.3
        return J("ld", 0, q, *[rng.choice([a - rng.randint(1, 50), b + rng.randint(1, 50)]) if out and rng.random() < 0.3 else
                               rng.choice([a, b, (a + b) // 2, rng.randint(a, b), rng.randint(a, b), rng.randint(a, b)]) for _ in range(M * N)])

    def qto():
        q, a, b = rngs()
        return [J("ld", 3, q, a, b), data(q, a, b), "qto"]

    def own():
        q, a, b = rngs()
        return [data(q, a, b), "q"]

    def deq():
        q, a, b = rngs()
        js = [rng.randint(-7, 7) if signed else rng.randint(0, 15) for _ in range(M * N)]
        return [J("ld", 3, q, a, b), J("ld", 1, 1, *[x for j in js for x in fifteenth(j)]), "deq"]
    def far():
        s = rng.choice([1, 1, -1])
        if False and inst.T not in FLOATS:
            s = 1
        e = rng.randint(14, 900) if inst.T in FLOATS and rng.random() < 0.9 else rng.randint(14, 24) if inst.T not in FLOATS else 0
        return qto()[:2] + [J("far", rng.randrange(M), rng.randrange(N), s, e)]
    table = [("qto", 5, qto), ("far", 2, far), ("own", 4, own), ("deq", 4, deq)]
    return behaviour(rng, inst, nops, weigh(table, weights), [], scale_k(rng, inst, 15))


def g_stream(rng, inst, nops, weights, **opt):
    M, N, P, fl = inst.par
    size = [M * N, M * N, P, 4, 6]
    un = inst.T in UNSIGNED

    def num():
        x = pick(rng, [(4, rng.randint(-9, 9)), (2, rng.randint(-999, 999)), (1, 0), (1, rng.randint(-12345, 12345))])
        return abs(x) if un else x

    def ld(i=None):
        i = rng.randrange(5) if i is None else i
        q = pick(rng, [(3, 1), (1, 2), (1, 4), (0.3, 3)]) if fl else 1
        if i == 4:
            v = [rng.randint(-40, 40) for _ in range(6)]
            return J("ld", 4, q, *v)
        return J("ld", i, q, *[num() for _ in range(size[i])])
    d = lambda: rng.randrange(2)
    fresh = lambda i, o: ([ld(i)] if rng.random() < 0.5 else []) + [o]

    def ser():
        o = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(3)
            o += fresh(i, J("ws", i))
        for _ in range(rng.randint(1, 3)):
            o.append(J("rs", rng.randrange(3)))
        return o

    def raw():
        i, n, f = d(), rng.randrange(7), rng.randrange(6)
        o = fresh(i, J("wraw", i, n, f))
        if rng.random() < 0.5:
            o.append(ld(1 - i))
        if rng.random() < 0.7:
            o.append(J("rraw", rng.randrange(2), n ^ 1 if n < 4 and rng.random() < 0.3 else n, (f // 3) * 3 + rng.randrange(3)))
        else:
            o.append(J("rraw", d(), rng.randrange(7), rng.randrange(7)))
        if rng.random() < 0.15:
            o.insert(rng.randrange(len(o)), J("wraw", d(), rng.randrange(7), 6))
        if rng.random() < 0.25:
            # a file that is cut short
            o += [J("trc", n, f, rng.choice([0, 1, M * N - 1, rng.randint(0, M * N - 1)]))] + fresh(d(), J("rraw", d(), n, f))
        elif rng.random() < 0.2:
            # a file that holds more, and is written again
            o += [J("trc", n, f, M * N + rng.randint(1, 9))]
            o += fresh(d(), J("rraw", d(), n, f)) if rng.random() < 0.5 else []
            o += fresh(i, J("wraw", d(), n, (f // 3) * 3 + rng.randrange(3)))
        return o

    def fmt():
        return J("fmt", rng.randint(2, 9), rng.randrange(4) + 4 * pick(rng, [(6, 0), (1, 1), (1, 2)]) + 16 * (rng.random() < 0.1))

    def pr():
        return [pick(rng, [(3, lambda: fresh(0, J("prm", d()))), (3, lambda: fresh(2, "prv")), (2, lambda: fresh(3, "prq")),
                           (1.5, lambda: fresh(4, "prb")), (1.5, lambda: fresh(4, "prf"))])(), ["fmts"]]

    def flat(x):
        return [z for y in x for z in (flat(y) if isinstance(y, list) else [y])]
    table = [("ser", 5, ser), ("raw", 5, raw), ("fmt", 3, fmt), ("pr", 8, lambda: flat(pr())),
             ("csv", 2.5, lambda: fresh(0, J("csv", d(), rng.randrange(3), rng.randrange(6)))), ("ld", 2, ld),
             ("rs", 2, lambda: J("rs", rng.randrange(3)))]
    return behaviour(rng, inst, nops, weigh(table, weights), [ld(0), ld(2)], 0)


def g_lowpass(rng, inst, nops, weights, **opt):
    W, n = inst.par
    i = lambda: rng.randint(1, 2)
    fac = lambda: rng.choice([(1, 2), (1, 4), (3, 4), (1, 1), (0, 1), (1, 8), (7, 8), (1, 2)] + ([(3, 2), (2, 1), (-1, 2), (1, 64), (1, 1024), (-1, 512)] if W < 3 else
                                [(3, 2), (2, 1), (-1, 2), (1, 32)] if W < 4 else []))
    ld = lambda: J("ld", 0, 1, *[rng.choice([rng.randint(-9, 9), rng.randint(-99, 99), 0]) for _ in range(n)])

    def add():
        return [ld(), J("add", i())] if rng.random() < 0.85 else J("add", i())

    def burst():
        j = i()
        o = []
        for _ in range(rng.randint(1, W + 2)):
            o += [ld(), J("add", j)]
        return o

    def own():
        # the filtered value itself: while it is one of the values added
        j = i()
        return [J("new", j, *fac()), ld(), J("add", j)] + [J("own", j)] * rng.randint(1, 2) + [ld(), J("add", j)] if rng.random() < .5 else \
               [J("sf", j, 0, 1), ld(), J("add", j), J("sf", j, *fac()), J("own", j), J("own", j)]
    table = [("add", 8, add), ("burst", 2, burst), ("own", 1, own), ("new", 1, lambda: J("new", i(), *fac())), ("sf", 1.5, lambda: J("sf", i(), *fac())),
             ("get", 2, lambda: J("get", i(), rng.randrange(3))), ("cp", 1, lambda: J("cp", i(), i()))]
    return behaviour(rng, inst, nops, weigh(table, weights), [], scale_k(rng, inst, 15))


def eye(n):
    return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]


def mmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def ortho(rng, n):
    """a random rational orthogonal matrix"""
    q = eye(n)
    for _ in range(rng.choice([0, 1, 1, 2])):
        g = eye(n)
        if n >= 2 and rng.random() < 0.6:
            c, s, h = angle(rng, 13)
            i, j = rng.sample(range(n), 2)
            g[i][i] = g[j][j] = Fr(c, h)
            g[i][j], g[j][i] = Fr(-s, h), Fr(s, h)
        elif n >= 2:
            v = [rng.randint(-2, 2) for _ in range(n)]
            d = sum(x * x for x in v)
            if d:
                g = [[Fr(int(i == j)) - Fr(2 * v[i] * v[j], d) for j in range(n)] for i in range(n)]
        q = mmul(q, g)
    p = list(range(n))
    rng.shuffle(p)
    s = [rng.choice([1, 1, -1]) for _ in range(n)]
    return [[q[i][p[j]] * s[j] for j in range(n)] for i in range(n)]


def g_qr(rng, inst, nops, weights, **opt):
    M, N = inst.par
    k, diag = scale_k(rng, inst, 20), [1, 1, 2, 3, 5]
    if rng.random() < 0.15:
        # residual columns that are nearly of unit length
        k = rng.choice([-6, -7])
        diag = [(1 << -k) + x for x in (1, -1, 0)]
    out = [inst.start(k)]
    while len(out) < nops:
        q = ortho(rng, M)
        h = 1
        for i in range(M):
            for j in range(N):
                h = math.lcm(h, q[i][j].denominator)
        if h > 200:
            continue
        off = rng.choice([0, 2, 4, 6])
        r = [[Fr(rng.choice(diag) if i == j else rng.randint(-off, off) if i < j else 0) for j in range(N)] for i in range(N)]
        a = mmul([row[:N] for row in q], r)
        d = 1
        for row in a:
            for x in row:
                d = math.lcm(d, x.denominator)
        v = [int(x * d) for row in a for x in row]
        if max(map(abs, v)) > 1500 or (inst.T == "float" and N > 3 and off > 2):
            continue
        out += [J("ld", 0, d, *v), J("qr", h)]
        if rng.random() < 0.1:
            out.append(J("qr", h))
    return out


def g_filler(rng, inst, nops, weights, **opt):
    out = [inst.start(0)]
    if rng.random() < 0.4:
        out.append("dct")
    out.append(J("rand", rng.randrange(3), rng.randint(0, 9)))
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(3)
        out.append(J("rand", i, rng.choice([rng.randint(0, 9), rng.randint(0, 100000), -1, -1]) if i != 1 else rng.randint(0, 9)))
    out.append("spread")
    return out


BIGVER = [99, 100, 101, 127, 128, 255, 256, 999, 1000, 1024, 9999, 10000, 32768, 65535, 65536, 100000, 1000000, 16777216, 200000000]


def g_version(rng, inst, nops, weights, version=(1, 8, 0), **opt):
    out = [inst.start(0) + " ".join(map(str, version)), "num"]
    for _ in range(nops):
        out.append(J("cmp", *[max(0, x + rng.choice([0, 0, 1, -1, rng.randint(-3, 10)])) for x in version]))
        if rng.random() < .4:  # components of many digits
            out.append(J("cmp", *[rng.choice([x, x, 0, max(0, x - 1), x + 1, x + rng.choice(BIGVER), rng.choice(BIGVER)]) for x in version]))
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            for c in (-1, 0, 1):
                out.append(J("cmp", *[max(0, x) for x in (version[0] + a, version[1] + b, version[2] + c)]))
    return out


def I_quant(M, N, T, I):
    return Inst("Quant<%d,%d,%s,%s>" % (M, N, T, I), "quant", [M, N] + list(ITYPES[I]) + [0 if T in FLOATS else 1], "io.hpp", g_quant, T)


def I_quantw(M, N, I):
    return Inst("QuantW<%d,%d,%s>" % (M, N, I), "quantw", [M, N, 0 if "unsigned" in I else 1], "io.hpp", g_quantw, "double")


def I_stream(M, N, P, T):
    return Inst("Stream<%d,%d,%d,%s>" % (M, N, P, T), "stream", [M, N, P, 1 if T in FLOATS else 0], "io.hpp", g_stream, T)


def I_lowpass(W, V, T, n):
    return Inst("Lowpass<%d,%s>" % (W, V), "lowpass", [W, n], "misc.hpp", g_lowpass, T)


def I_qr(M, N, T):
    return Inst("Qr<%d,%d,%s>" % (M, N, T), "qr", [M, N], "misc.hpp", g_qr, T)


def I_filler(M, N, P, T):
    return Inst("Filler<%d,%d,%d,%s>" % (M, N, P, T), "filler", [M, N, P], "misc.hpp", g_filler, T)


def I_version():
    return Inst("Version", "version", [], "ver.hpp", g_version, "int")


TRIPLES = [(3, 4), (5, 12), (8, 15), (20, 21), (7, 24), (12, 5), (4, 3), (1, 0), (0, 1), (0, 7), (9, 0), (0, 0), (40, 9), (-3, 4), (8, -6), (-12, -9)]


def g_util(rng, inst, nops, weights, **opt):
    P = inst.par[0]
    n = lambda: rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-1000, 1000)])
    L = lambda i: J("ld", i, pick(rng, [(6, 1), (1, 2), (1, 4)]) if inst.isf else 1, *[n() for _ in range(3 if i > 2 else P)])
    d = lambda: rng.randrange(2)
    pair = lambda o: (lambda x: J(o, x, rng.choice([x, -x, x + 1, n(), 0])))(n())
    table = [("ld", 2, lambda: L(rng.choice([0, 1, 4, 5]))), ("ext", 4, lambda: [L(0), J("ext", d(), d(), d())]), ("zero", 1, lambda: J("zero", rng.randrange(3))),
             ("manh", 2, lambda: [L(0), J("manh", rng.randrange(3))]), ("tens", 2, lambda: [J("ld", 3, 1, *[n() for _ in range(16)])] * (rng.random() < 0.4) + [L(4), L(5), "tens"]),
             ("osg", 1, lambda: J("osg", rng.choice([4, 5]), n(), n(), n())), ("eqf", 2, lambda: J("eqf", rng.randint(-8, 8), rng.choice([0, 1, -2, 3, -3, 4, -4, 5, 1000]))),
             ("eqi", 2, lambda: pair("eqi") + " %d" % rng.randrange(3)), ("sq", 1, lambda: J("sq", n())),
             ("pyth", 3, lambda: J("pyth", *rng.choice(TRIPLES), rng.choice([0, 3, -3, 500, -500, 900, -900, rng.randint(-900, 900)]))),
             ("sign", 1.5, lambda: pair("sign")), ("absc", 2, lambda: pair("absc")), ("type", 1.5, lambda: J("type", rng.randrange(23)))]
    return behaviour(rng, inst, nops, weigh(table, weights), [L(0), L(1)], 0)


def g_utens(rng, inst, nops, weights, **opt):
    n = lambda: rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-99, 99)])
    L = lambda i, c: J("ld", i, pick(rng, [(6, 1), (1, 2), (1, 4)]) if inst.isf else 1, *[n() for _ in range(c)])
    out = [inst.start(0)]
    for _ in range(nops // 4):
        out += [L(3, 16)] * (rng.random() < 0.7) + [L(4, 3), L(5, 3), "tens"]
    return out


def I_utens(T):
    return Inst("Util<3,%s>" % T, "util", [3], "util.hpp", g_utens, T)


def I_util(P, T):
    return Inst("Util<%d,%s>" % (P, T), "util", [P], "util.hpp", g_util, T)
