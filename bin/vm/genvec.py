"""Scripts for the vector machines."""
from .gen import *

# integer vectors of integer length: (x, y, z, n)
QUADS = [(1, 0, 0, 1), (3, 4, 0, 5), (1, 2, 2, 3), (2, 3, 6, 7), (4, 4, 7, 9), (1, 4, 8, 9), (2, 6, 9, 11), (6, 6, 7, 11),
         (5, 12, 0, 13), (3, 4, 12, 13), (2, 5, 14, 15), (2, 10, 11, 15)]
TRIPLES = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (7, 24, 25), (1, 0, 1), (0, 1, 1), (3, 4, 5)]


def axis(rng, big=9):
    q = rng.choice([x for x in QUADS if x[3] <= big])
    v = list(q[:3])
    rng.shuffle(v)
    return [x * rng.choice([1, -1]) for x in v], q[3]


def angle(rng, big=25, T=None):
    if T is not None and rng.random() < 0.12:
        # close to a multiple of a quarter turn
        n = rng.choice([8, 12, 18, 25, 36] if T == "float" else [8, 18, 36, 50, 63, 100, 140, 199])
        c, s, h = n * n - 1, 2 * n, n * n + 1
        if n % 2:
            c, s, h = c // 2, s // 2, h // 2
        if rng.random() < 0.25:
            c, s = s, c
        return c * rng.choice([1, 1, 1, -1]), s * rng.choice([1, -1]), h
    c, s, h = rng.choice([t for t in TRIPLES if t[2] <= big])
    return c * rng.choice([1, -1]), s * rng.choice([1, -1]), h


def vec(rng, n, T, mode=None):
    if mode == "unit" or (mode is None and rng.random() < 0.08):
        v = [0] * n
        v[rng.randrange(n)] = 1
        return v
    return mat(rng, n, 1, T, mode or pick(rng, [(6, "dense"), (1, "sparse"), (1, "zero"), (1, "const"), (2, "distinct"), (1, "neg"), (1, "big"), (0.7, "edge")]))


def ldv(rng, inst, d, n, mode=None, q=None):
    if q is None:
        q = pick(rng, [(8, 1), (1, 2), (1, 4), (0.5, 3)]) if inst.isf else 1
    v = vec(rng, n, inst.T, mode)
    if q not in (1, 2, 4) and max(map(abs, v), default=0) > 60000:
        q = 1
    return "ld %d %d %s" % (d, q, " ".join(map(str, v)))


def near_unit(rng, n, D):
    """n integers whose squares sum up to nearly, but not exactly, D^2"""
    while True:
        z = [rng.choice([0, 0, 1, -1, rng.randint(-D // 2, D // 2)]) for _ in range(n - 1)]
        e = rng.choice([1, -1, 2, -2, 3, -3, rng.randint(-D, D)])
        t = D * D + e - sum(x * x for x in z)
        if t < 0:
            continue
        w = int(t ** 0.5 + 0.5)
        z.insert(rng.randrange(n), rng.choice([1, -1]) * w)
        u = sum(x * x for x in z)
        if u != D * D and abs(u - D * D) <= 2 * D + 1:
            return z


def J(*a):
    return " ".join(map(str, a))


def far_pair(rng, inst, M, x, y):
    """two vectors that are near to each other and far from the origin"""
    big = (1 << 20) if inst.isf else min(1 << 20, {"signed char": 100, "char": 100, "short": 30000}.get(inst.T, 1 << 20))
    b = [rng.choice([0, rng.randint(-big, big)]) for _ in range(M)]
    e = [rng.choice([0, 1, -1, 2, rng.randint(-9, 9)]) for _ in range(M)]
    return [J("ld", x, 1, *b), J("ld", y, 1, *[u + v for u, v in zip(b, e)])]


def g_vecarith(rng, inst, nops, weights, **opt):
    M = inst.par[0]
    d = lambda: rng.randrange(4)
    un = inst.T in UNSIGNED
    sv = lambda: rng.choice([2, 3, 5, 7, 1, 0, 10]) * (1 if un else rng.choice([1, 1, -1]))
    small = lambda: J("ld", d(), 1, *[rng.choice([1, 2, 3, 4, -1, -2, 5, 6]) if not un else rng.randint(1, 6) for _ in range(M)])
    fs = [0, 2, 3] if un else [0, 1, 2, 3]
    f = lambda: rng.choice(fs)

    def sca():
        x, y, g, o = d(), d(), f(), rng.randrange(3)
        if o == 2:
            g = 2
        return J("sca", g, x, x if o == 1 else y, o, sv()) + (" 1" if inst.isf and g > 1 and rng.random() < 0.3 else "")

    def mult():
        k, x, f = rng.choice(DIVISORS), d(), rng.randrange(2)
        return [J("ld", x, 1, *multiples(rng, inst.T, k, M)), J("sca", 3, x if f else d(), x, f, k if un else k * rng.choice([1, 1, -1]))]

    def far():
        x, y = rng.sample(range(4), 2)
        return far_pair(rng, inst, M, x, y) + [J("sqd", x, y)]

    def wide():
        # products and scalar products that need more digits than single precision has
        x, y = rng.sample(range(4), 2)
        b = int(((1 << 27) - 1) ** (1 / M))
        w = lambda b: [(rng.randint(b * 3 // 4, b) | 1) * (1 if un else rng.choice([1, 1, -1])) for _ in range(M)]
        if M > 1 and rng.random() < 0.6:
            return [J("ld", x, 1, *w(b)), J("prod", x)]
        b = int((((1 << 27) - 1) // M) ** 0.5)
        return [J("ld", x, 1, *w(b)), J("ld", y, 1, *w(b)), rng.choice([J("dot", x, y, rng.randrange(2)), J("sql", x)])]
    table = ([] if inst.isf else [("mult", 5, mult)]) + ([("wide", 2, wide)] if inst.T in ("int", "double", "long", "unsigned", "int64_t") else []) + [
        ("ld", 5, lambda: ldv(rng, inst, d(), M)), ("lds", 3, small),
        ("bin", 6, lambda: J("bin", f(), d(), d(), d())), ("binip", 6, lambda: J("binip", f(), d(), d())),
        ("sca", 6, sca), ("self", 2, lambda: J("self", f(), d(), rng.randrange(M))),
        ("dot", 3, lambda: J("dot", d(), d(), rng.randrange(2))), ("prod", 2, lambda: J("prod", d())),
        ("sql", 2, lambda: J("sql", d())), ("sqd", 2, lambda: J("sqd", d(), d())), ("far", 1, far),
        ("cp", 1, lambda: J("cp", d(), d(), rng.randrange(2))), ("swap", 0.5, lambda: J("swap", 0, rng.randint(1, 3))),
    ]
    if not un:
        table.append(("neg", 2, lambda: (lambda x, y, o: J("neg", x, x if o == 1 else y, o))(d(), d(), rng.randrange(3))))
    else:
        table = [t for t in table if t[0] not in ("sqd", "far")]
    if M == 3 and not un:
        table.append(("cross", 5, lambda: J("cross", d(), d(), d(), rng.randrange(3))))
    return behaviour(rng, inst, nops, weigh(table, weights), [ldv(rng, inst, i, M) for i in range(4)], scale_k(rng, inst, 12))


def g_vecgeom(rng, inst, nops, weights, **opt):
    M = inst.par[0]
    d = lambda: rng.randrange(4)

    def sm():
        m = pick(rng, [(5, "r"), (1, "z"), (1, "q"), (1, "u")])
        if m == "r":
            v = [rng.randint(-5, 5) for _ in range(M)]
        elif m == "z":
            v = [0] * M
        elif m == "u":
            v = [0] * M
            v[rng.randrange(M)] = rng.choice([1, -1, 3])
        else:
            v = [rng.randint(-15, 15) for _ in range(M)]
        return J("ld", d(), pick(rng, [(6, 1), (1, 2), (1, 4)]), *v)

    def nrmw():
        # nearly, but not exactly, of unit length
        q = rng.choice([8, 16, 32] if inst.T == "float" else [16, 32, 64, 128, 256])
        x = d()
        v = near_unit(rng, M, q) if M > 1 else [q + rng.choice([1, -1])]
        return [J("ld", x, q, *v), rng.choice([J("nrm", x, rng.randrange(3)), J("nrm", x, 0), J("len", x, rng.randrange(2))])]

    def rot():
        ax, n = axis(rng)
        c, s, h = angle(rng, T=inst.T)
        x, y = d(), d()
        return [sm() if rng.random() < 0.7 else ldv(rng, inst, y, M, q=1),
                J("rot", x, y, c, s, h, *ax, n, rng.choice([0, 0, 1, -2, 3]), rng.choice([0, 0, 0, 1, -1]))]

    def far():
        x, y = rng.sample(range(4), 2)
        return far_pair(rng, inst, M, x, y) + [J("dist", x, y)]
    table = [("ld", 4, sm), ("far", 1, far), ("len", 3, lambda: J("len", d(), rng.randrange(2))), ("dist", 3, lambda: J("dist", d(), d())),
             ("nrm", 5, lambda: J("nrm", d(), rng.randrange(3))), ("nrmw", 1, nrmw), ("cp", 0.5, lambda: J("cp", d(), d()))]
    if M == 3:
        def nrmm():
            m = 6 if inst.T == "float" else 12
            x, y, z = rng.sample(range(4), 3)
            v = [[rng.randint(-m, m) for _ in range(3)] for _ in range(3)]
            if rng.random() < 0.1:
                v[2] = v[1]
            if rng.random() < 0.3:
                v = [[a // 4 for a in b] for b in v]
            return [J("ld", x, 1, *v[0]), J("ld", y, 1, *v[1]), J("ld", z, 1, *v[2]), J("norm", x, y, z, rng.randrange(2))]
        table += [("rot", 5, rot), ("norm", 4, nrmm)]
    return behaviour(rng, inst, nops, weigh(table, weights), [ldv(rng, inst, i, M, q=1) for i in range(4)], scale_k(rng, inst, 8))


def g_vecsearch(rng, inst, nops, weights, **opt):
    M = inst.par[0]
    T, U, top = inst.T, inst.attr["U"], inst.attr["top"]
    d = lambda: rng.randrange(2)
    un = T in UNSIGNED
    lo = 0 if un else -4

    def tie():
        return J("ld", d(), 1, *[rng.randint(lo // 2, 2) for _ in range(M)])

    def pair():
        v = vec(rng, M, T)
        w = list(v)
        for _ in range(rng.randrange(3)):
            i = rng.randrange(M)
            w[i] = clip(T, w[i] + rng.choice([1, -1, 2, -2, 3]))
        q = pick(rng, [(6, 1), (1, 2), (1, 4)]) if inst.isf else 1
        return [J("ld", 0, q, *v), J("ld", 1, q, *w)]

    def wp(f):
        def g():
            o = f()
            return o if isinstance(o, list) else (pair() if rng.random() < 0.7 else []) + [o]
        return g

    def wt(f):
        return lambda: ([tie()] if rng.random() < 0.4 else [ldv(rng, inst, d(), M)]) + [f()]

    def scal():
        r = d()
        l, h = rng.choice([(-1, 1), (0, 1), (0, 2), (-2, 2), (-1, 3), (2, 4), (-8, -4), (0, 4), (1, 2), (0, 3), (-3, 4), (1, 6), (-5, 5)])
        q = rng.choice([1, 2, 4, 8, 3, 7]) if inst.isf else 1
        if un:
            l, h = l + 8, h + 8
        form = 1 if (l, h) == (-1, 1) and rng.random() < 0.5 else 0
        return [J("ld", r, q, *[rng.randint(l * q, h * q) for _ in range(M)]), J("scal", r, l, h, top, form)]

    def scai():
        r = d()
        l, h = rng.choice([(-1, 1), (0, 1), (0, 2), (-2, 2), (-1, 3), (2, 4), (-8, -4), (0, 4), (1, 2), (0, 3), (-3, 4), (1, 6), (-5, 5), (0, 7), (0, 100)])
        if un:
            l, h = l + 8, h + 8
        q = rng.choice([1, 2, 4, 8]) if inst.isf else 1
        form = 1 if (l, h) == (-1, 1) and rng.random() < 0.5 else 0
        return [J("ld", r, q, *[rng.choice([l * q, h * q, rng.randint(l * q, h * q)]) for _ in range(M)]), J("scai", r, l, h, form)]

    def clmp():
        a = rng.randint(lo, 3)
        b = a + rng.randint(0, 4)
        f = 0
        if rng.random() < 0.2:
            a, b, f = 0, 1, 1
        return J("clmp", d(), a, b, f)

    def l2():
        r = d()
        m = 450 if inst.isf else 1000 if inst.T in ("int", "int64_t") else 100
        v = [rng.randint(0 if un else -m, m) for _ in range(M)]
        e = 0 if inst.isf or inst.T != "int" else rng.choice([0, 0, 5, 8, 12, 16, 20])
        return [J("ld", r, 1, *v), J("l2", r, e)]

    def unit():
        v = [0] * M
        v[rng.randrange(M)] = rng.choice([1, 1, 1, 2] + ([] if un else [-1]))
        if rng.random() < 0.4:
            v[rng.randrange(M)] = rng.choice([1, 0, 2])
        r = d()
        return [J("ld", r, rng.choice([1, 1, 2]) if inst.isf else 1, *v), J("unit", r)]

    def near():
        t = rng.choice([1, 2, 3, 4, 5, 6]) if inst.isf else 2 * rng.randint(1, 5)
        f = rng.choice([0, 0, 1, 2])
        if T in ("float", "double") and rng.random() < 0.2:
            # a large difference at the border of the tolerance
            t = rng.choice([4097, 65537, 1 << 20] if T == "float" else [(1 << 24) + 1, (1 << 25) + 3, 100000007])
            v = [rng.randint(-5, 5) for _ in range(M)]
            w = list(v)
            w[rng.randrange(M)] += rng.choice([1, -1]) * (t + rng.choice([0, 1, -1]))
            s = d()
            return [J("ld", 0, 1, *v), J("ld", 1, 1, *w), J("near", s, 1 - s, 2 * t, 0)]
        return J("near", d(), d(), 1 if f else t, f)

    def rcp():
        r = d()
        v = [rng.choice([1, 2, 3, 4, 5, 6, 8, 10, -1, -2, -3, 0]) for _ in range(M)]
        return [J("ld", r, rng.choice([1, 1, 2]), *v), J("rcp", r, rng.randrange(2))]

    def sq():
        r = d()
        return [J("ld", r, rng.choice([1, 4, 9]), *[rng.choice([0, 1, 4, 9, 2, 7, 100, 50]) for _ in range(M)]), J("sqrt", r)]
    table = [
        ("ld", 2, lambda: ldv(rng, inst, d(), M)), ("tie", 2, tie),
        ("eq", 4, wp(lambda: J("eq", d(), d()))), ("lt", 5, wp(lambda: J("lt", d(), d()))),
        ("find", 6, wt(lambda: J("find", d(), rng.randrange(4), rng.randrange(2)))),
        ("fwr", 2, lambda: J("fwr", d(), rng.randrange(2), rng.randint(0 if un else -30, 30))),
        ("clmp", 4, wt(clmp)), ("nnz", 2, wt(lambda: J("nnz", d()))), ("unit", 3, unit), ("l2", 1.5, l2),
        ("cp", 0.7, lambda: J("cp", d(), d())),
    ]
    table += [("near", 4, wp(near)), ("scal", 4, scal), ("scai", 2, scai)]
    if inst.isf:
        table += [("rcp", 3, rcp), ("sqrt", 2, sq), ("nan", 0.6, lambda: J("nan", d(), d(), rng.randrange(M)))]
        if M <= 6:
            table.append(("pert", 2, lambda: J("pert", d(), rng.randint(1, 5))))
    k = scale_k(rng, inst, 8) if rng.random() < 0.5 else 0
    return behaviour(rng, inst, nops, weigh(table, weights), [ldv(rng, inst, i, M, q=1) for i in range(2)], k)


def g_vecview(rng, inst, nops, weights, oob=True, noconv=False):
    M, N = inst.par
    T = inst.T
    x = lambda: val(rng, T)

    def ix():
        if oob and rng.random() < weights.get("oob", 0.05):
            return rng.choice([M, -1, M + 1, 50])
        return rng.randrange(M)
    pth = lambda: rng.choice([0, 1, 2, 3, 4, 5, 6, 7] + ([] if noconv else [8]))

    def wr():
        i = ix()
        return J("wr", pth() if 0 <= i < M else rng.randrange(2), i, x())

    def rd():
        i = ix()
        return J("rd", (pth() if 0 <= i < M else rng.randrange(2)) + rng.choice([0, 10]), i)

    def pre():
        f = rng.randrange(6)
        n = M if f < 2 else pick(rng, [(4, M), (1, M + 1), (2 if f in (2, 3) else 0, rng.randint(0, M))])
        return J("pre", f, *[x() for _ in range(n)])
    L = lambda: (lambda d: ldv(rng, inst, d, [M, M + 1, M - 1, M, N][d], q=1))(rng.choice([0, 1, 2, 4]))

    def ld3():
        return J("ld", 3, 1, *vec(rng, M, joint(T, inst.attr["U"])))

    def frh():
        d, s, n = rng.choice([(0, 1, M + 1), (2, 0, M)])
        v = vec(rng, n, T)
        if not inst.isf and rng.random() < 0.7:
            v[-1] = rng.choice([1, 2, 3, 4, 5, 7] + ([] if T in UNSIGNED else [-1, -2, -3]))
            if rng.random() < 0.5:
                v = [clip(T, x * v[-1]) for x in v[:-1]] + v[-1:]
            return [J("ld", s, 1, *v), J("frhi", d, s, rng.randrange(2))]
        v[-1] = rng.choice([1, 2, -1, -2, 4, 3, 5, -5]) if inst.isf else 1
        return [J("ld", s, 1, *v), J("frh", d, s, rng.randrange(2))]
    off = lambda: rng.randint(0, M - N)
    table = [
        ("ld", 3, L), ("ld3", 1, ld3), ("wr", 8, wr), ("rd", 5, rd), ("iter", 3, lambda: J("iter", rng.randrange(2), rng.randrange(2))),
        ("size", 0.3, lambda: "size"), ("fill", 1.5, lambda: J("fill", rng.randrange(3), x())), ("app", 2, lambda: J("app", rng.randrange(2), x())),
        ("pre", 4, pre), ("toh", 2, lambda: J("toh", *rng.choice([(1, 0), (0, 2)]), rng.randrange(2))), ("frh", 3, frh),
        ("cnv", 2, lambda: J("cnv", *rng.choice([(0, 3), (3, 0)]), rng.randrange(3))),
        ("sget", 3, lambda: J("sget", off(), rng.randrange(2))), ("sput", 3, lambda: J("sput", off())),
        ("spok", 3, lambda: J("spok", off(), rng.randrange(N), x())), ("setf", 2, lambda: J("setf", rng.choice([1, 2] + ([4] if N != M else [])))),
    ]
    if M == 3:
        table.append(("name", 1, lambda: J("name", rng.randrange(11))))
    k = scale_k(rng, inst, 12) if rng.random() < 0.4 else 0
    return behaviour(rng, inst, nops, weigh(table, weights), [L() for _ in range(4)], k)


def g_vecplane(rng, inst, nops, weights, **opt):
    m = 5 if inst.T == "float" else 12

    def pts():
        v = [[rng.randint(-m, m) for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.4:
            v = [[a // 3 for a in b] for b in v]
        if rng.random() < 0.3:
            # an axis-parallel or Pythagorean plane: rational normal
            i = rng.randrange(3)
            for b in v:
                b[i] = v[0][i]
        if rng.random() < 0.05:
            v[2] = v[0]
        return [J("ld", 2 + i, 1, *v[i]) for i in range(3)]

    def plane():
        p = [2, 3, 4]
        rng.shuffle(p)
        return pts() + [J("plane", *p)]

    def ldplane():
        ax, n = axis(rng, 7)
        return J("ld", 0, n, *ax, rng.randint(-5, 5) * n if rng.random() < 0.7 else rng.randint(-9, 9))
    pt = lambda: J("ld", 1, rng.choice([1, 1, 2]), *[rng.randint(-9, 9) for _ in range(3)])

    def sph():
        if rng.random() < .25:  # a point near the centre of a large sphere
            c = [rng.randint(-6, 6) for _ in range(3)]
            return [J("ld", 5, 1, *c, rng.randint(60, 300)), J("ld", 1, 1, *[x + rng.choice([0, 0, 1, -1]) for x in c])]
        return [J("ld", 5, 1, *[rng.randint(-6, 6) for _ in range(3)], rng.randint(0, 6)), J("ld", 1, 1, *[rng.randint(-9, 9) for _ in range(3)])]
    table = [("plane", 4, plane), ("ldp", 2, ldplane), ("pt", 2, pt),
             ("d2p", 4, lambda: [ldplane(), pt(), "d2p"] if rng.random() < 0.6 else "d2p"),
             ("prp", 4, lambda: [ldplane(), pt(), "prp"] if rng.random() < 0.6 else "prp"),
             ("d2s", 3, lambda: sph() + ["d2s"]), ("prs", 3, lambda: sph() + ["prs"])]
    return behaviour(rng, inst, nops, weigh(table, weights), [ldplane(), pt()], scale_k(rng, inst, 15))


def I_vecarith(M, T):
    return Inst("VecArith<%d,%s>" % (M, T), "vecarith", [M, 0 if T in FLOATS else 1], "vec.hpp", g_vecarith, T)


def I_vecgeom(M, T):
    return Inst("VecGeom<%d,%s>" % (M, T), "vecgeom", [M], "vec.hpp", g_vecgeom, T)


TOP = {"unsigned char": 255, "signed char": 127, "short": 32767, "unsigned short": 65535}


def I_vecsearch(M, T, U):
    return Inst("VecSearch<%d,%s,%s>" % (M, T, U), "vecsearch", [M], "vec.hpp", g_vecsearch, T, U=U, top=TOP[U])


def I_vecview(M, N, T, U):
    return Inst("VecView<%d,%d,%s,%s>" % (M, N, T, U), "vecview", [M, N], "vec.hpp", g_vecview, T, U=U)


def I_vecplane(T):
    return Inst("VecPlane<%s>" % T, "vecplane", [4], "vec.hpp", g_vecplane, T)
