"""Scripts for the transform, matrix-vector and quaternion machines."""
import itertools

from .genvec import *


def turns(rng):
    return rng.choice([0, 0, 0, 0, 1, -1])


def g_affine(rng, inst, nops, weights, **opt):
    d = lambda: rng.randrange(2)

    def ldm():
        mode = pick(rng, [(6, "dense"), (2, "affine"), (1, "distinct"), (1, "sparse"), (1, "perm")])
        m = mat(rng, 4, 4, inst.T, mode)
        m = [max(-20, min(20, x)) for x in m]
        return J("ld", d(), rng.choice([1, 1, 1, 2]), *m)

    def nice():
        return J("ld", d(), 1, *[rng.randint(-5, 5) for _ in range(16)])
    def qxyz(z=False):
        if rng.random() < 0.2:
            # mirrorings, equal factors and single axes
            k = rng.choice([1, 1, 1, 2, 3])
            s = [rng.choice([k, -k] + ([0] if z else [])) for _ in range(3)]
            return (rng.choice([1, k]), *s)
        return (rng.choice([1, 1, 1, 1, 2, 2, 4, 3, 5]),
                *[rng.choice([1, 2, 3, -1, -2, 5, -4] + ([0] if z else [])) for _ in range(3)])
    vx = lambda: rng.choice([2, 3])
    ldv3 = lambda: J("ld", vx(), rng.choice([1, 1, 2]), *[rng.randint(-5, 5) for _ in range(3)])
    pre = lambda f: (lambda: [ldm() if rng.random() < 0.5 else nice()] * (rng.random() < 0.6) + [f()])

    def rot():
        ax, n = axis(rng, 7)
        return J("rot", d(), *angle(rng, T=inst.T), *ax, n, rng.randrange(4), turns(rng))

    def arot():
        ax, n = axis(rng, 3)
        x = d()
        return J("arot", x, *angle(rng, 13, inst.T), *ax, n, 0, turns(rng))
    rax = lambda op: (lambda: J(op, d(), rng.randrange(3), *angle(rng, T=inst.T), rng.randrange(2), turns(rng)))

    def pt():
        if rng.random() < 0.5:
            return [ldm(), ldv3(), J("pt", d(), vx())]
        return J("pt", d(), vx())

    def cscl():
        q, x, y, z = qxyz(rng.random() < 0.4)
        f = rng.randrange(3)
        return J("cscl", d(), q, x, x if f == 2 else y, x if f == 2 else z, f)
    table = [
        ("ld", 3, ldm), ("mul", 1, lambda: J("mul", d(), d(), d())), ("mulip", 1, lambda: J("mulip", d(), d())),
        ("cp", 0.5, lambda: J("cp", d(), d())), ("tr", 0.5, lambda: (lambda x: J("tr", x, 1 - x))(d())),
        ("idn", 1, lambda: J("idn", d(), rng.randrange(2))),
        ("rot", 4, rot), ("arot", 3, pre(arot)), ("rax", 8, pre(rax("rax"))), ("pra", 8, pre(rax("pra"))),
        ("scl", 4, pre(lambda: J("scl", d(), *qxyz(True), rng.randrange(5)))),
        ("sctr", 4, pre(lambda: J("sctr", d(), *qxyz(True), rng.randrange(4)))),
        ("stra", 4, pre(lambda: J("stra", d(), *qxyz(True), rng.randrange(5)))),
        ("gtra", 4, pre(lambda: J("gtra", d(), vx(), rng.randrange(3)))),
        ("cscl", 2, cscl), ("ctra", 2, lambda: J("ctra", d(), *qxyz(True), rng.randrange(2))),
        ("atra", 3, pre(lambda: J("atra", d(), *qxyz(True), 0))),
        ("wxyz", 2, lambda: J("wxyz", d(), rng.randrange(3), rng.randint(-9, 9))),
        ("rxyz", 2, lambda: J("rxyz", d(), rng.randrange(3))),
        ("pt", 4, pt), ("ldv", 1, ldv3),
    ]
    return behaviour(rng, inst, nops, weigh(table, weights), [ldm(), ldm(), ldv3()], scale_k(rng, inst, 12) if rng.random() < 0.6 else 0)


def g_matvec(rng, inst, nops, weights, **opt):
    M, N = inst.par
    d = lambda: rng.randrange(2)

    def L():
        i = rng.choice([0, 0, 1, 1, 2] + ([4, 5] if M == N else []))
        r, c = {0: (M, N), 1: (M, N), 2: (N, 1), 4: (N - 1, 1), 5: (N - 1, 1)}[i]
        return ld(rng, inst, i, r, c)

    def hom():
        s = rng.choice([4, 5])
        m = mat(rng, M, N, inst.T, rng.choice(["dense", "affine", "distinct", "dense", "perm"]))
        m = [max(-12, min(12, x)) if inst.isf else x for x in m]
        if rng.random() < 0.3:
            # a sparse projective last row
            m[(M - 1) * N:] = [0] * N
            m[(M - 1) * N + rng.randrange(N)] = rng.choice([1, -1, 2, -2])
        if not inst.isf:
            m[(M - 1) * N:] = [0] * (N - 1) + [1]
        x = d()
        if inst.isf and rng.random() < 0.12:
            # a homogeneous coordinate that is nearly one
            e = rng.choice([5, 6]) if inst.T == "float" else rng.choice([6, 8, 10])
            p = [rng.choice([0, 1, -1, 2, -3, 4]) for _ in range(N - 1)]
            m = [rng.randint(-40, 40) for _ in range(M * N)]
            if rng.random() < 0.5:
                m[(M - 1) * N:] = [0] * N
            m[-1] = (1 << e) + rng.choice([1, -1, 2, -2]) - sum(a * b for a, b in zip(m[(M - 1) * N:], p))
            return [J("ld", x, 1 << e, *m), J("ld", s, 1, *p), J("hom", x, s, 9 - s)]
        return [J("ld", x, 1, *m), J("ld", s, 1, *[rng.randint(-5, 5) if inst.T not in UNSIGNED else rng.randint(0, 5) for _ in range(N - 1)]),
                J("hom", x, s, 9 - s)]
    table = [("ld", 4, L), ("mv", 6, lambda: [L(), J("mv", d())] if rng.random() < 0.6 else J("mv", d())), ("cp", 0.5, lambda: J("cp", d(), d()))]
    if M + 1 >= N > 1:
        table += [("gtr", 2, lambda: [L(), J("gtr", d(), rng.choice([4, 5]), rng.randrange(3))])]
    if M == N:
        table += [("hom", 6, hom), ("hom2", 2, lambda: J("hom", d(), 4, 5)), ("back", 1, lambda: "back"),
                  ("mm", 2, lambda: J("mm", d(), d(), d())), ("chain", 4, lambda: [L(), L(), J("chain", d(), d())])]
    init = [ld(rng, inst, 0, M, N), ld(rng, inst, 1, M, N), ld(rng, inst, 2, N, 1)]
    if M == N:
        init.append(ld(rng, inst, 4, N - 1, 1))
    return behaviour(rng, inst, nops, weigh(table, weights), init, scale_k(rng, inst, 8) if rng.random() < 0.5 else 0)


def _quats():
    """integer quaternions with integer norm: ((x, y, z, w), n)"""
    o = {}
    for v in itertools.product(range(0, 9), repeat=4):
        s = sum(x * x for x in v)
        n = int(s ** 0.5 + 0.5)
        if s and n * n == s and n <= 13:
            o.setdefault(n, []).append(v)
    return o


QN = _quats()


def uquat(rng, big=9, no1=False):
    n = rng.choice([x for x in QN if x <= big and not (no1 and x == 1)])
    v = list(rng.choice(QN[n]))
    rng.shuffle(v)
    return [x * rng.choice([1, -1]) for x in v], n


def _near_half():
    """p with p^2 having a small real part: (p, N = |p|^2)"""
    o = []
    for w in range(3, 33):
        for e in (0, 1, -1, 2, -2, 3):
            t = w * w - e
            for x in range(0, int(t ** 0.5) + 1):
                for y in range(x, int(t ** 0.5) + 1):
                    z2 = t - x * x - y * y
                    if z2 < 0:
                        break
                    z = int(z2 ** 0.5 + 0.5)
                    if z * z == z2:
                        o.append(((x, y, z, w), w * w + t))
    return o


NEARHALF = _near_half()


def g_quat(rng, inst, nops, weights, **opt):
    T = inst.T
    f = T == "float"
    d = lambda: rng.randrange(3)
    v = lambda: rng.choice([3, 4])
    k = scale_k(rng, inst, 8) if rng.random() < 0.5 else 0
    if k and not f and rng.random() < 0.2:
        k = rng.choice([-180, 150])

    def ldq():
        m = pick(rng, [(5, "r"), (1, "z"), (2, "q"), (1, "u"), (1, "b"), (3, "n"), (0.7, "w")])
        q = pick(rng, [(6, 1), (1, 2), (1, 4)])
        if m == "r":
            x = [rng.randint(-5, 5) for _ in range(4)]
        elif m == "z":
            x = [0] * 4
        elif m == "u":
            x = [0] * 4
            x[rng.randrange(4)] = rng.choice([1, -1])
        elif m == "q":
            x = [rng.randint(-15, 15) for _ in range(4)]
        elif m == "n":
            x, n = uquat(rng)
            q = rng.choice([1, n])
        elif m == "w":
            return ldw()
        else:
            x = [rng.randint(-300, 300) for _ in range(4)]
        return J("ld", d(), q, *x)

    def ldw(x=None):
        # nearly, but not exactly, of unit length
        q = rng.choice([8, 16, 32] if f else [16, 32, 64, 128, 256])
        return J("ld", d() if x is None else x, q, *near_unit(rng, 4, q))
    ldv_ = lambda: J("ld", v(), rng.choice([1, 1, 2]), *[rng.randint(-6, 6) for _ in range(3)])
    P = lambda g: (lambda: ([ldq()] if rng.random() < 0.5 else []) + [g()])
    V = lambda g: (lambda: [ldq(), ldv_(), g()] if rng.random() < 0.5 else g())

    def rotq():
        # the matrix of a rotation: register 5 or 6, through the quaternion
        x = d()
        r = rng.random()
        if r < 0.5:
            u, n = uquat(rng, 13)
        elif r < 0.75:
            # half turns
            u, n = axis(rng, 11)
            u = u + [0]
        else:
            p, N = rng.choice([c for c in NEARHALF if c[1] <= (50 if f else 2000)])
            px, py, pz, w = p
            s = [rng.choice([1, -1]) for _ in range(3)]
            w *= rng.choice([1, -1])
            px, py, pz = px * s[0], py * s[1], pz * s[2]
            u = [2 * w * px, 2 * w * py, 2 * w * pz, w * w - px * px - py * py - pz * pz]
            n = N
        return x, u, n

    def frm():
        x, u, n = rotq()
        m = rng.choice([5, 6])
        r = rng.random()
        if r < 0.35:
            return [J("ld", x, n, *u), J("tom", m, x, rng.randrange(2)), J("frm", m, rng.randrange(2))]
        a, b, c, w = u
        q = n * n
        if rng.random() < 0.35:
            # not of integer length; often a half turn about a diagonal
            z = rng.choice([0, 0.5])
            while True:
                a, b, c, w = [rng.randint(-4, 4) if rng.random() > z else rng.choice([0, 1, -1]) for _ in range(4)]
                if rng.random() < 0.6:
                    w = 0
                q = a * a + b * b + c * c + w * w
                if q:
                    break
        R = [w * w + a * a - b * b - c * c, 2 * (a * b - w * c), 2 * (a * c + w * b),
             2 * (a * b + w * c), w * w - a * a + b * b - c * c, 2 * (b * c - w * a),
             2 * (a * c - w * b), 2 * (b * c + w * a), w * w - a * a - b * b + c * c]
        if m == 5:
            return [J("ld", 5, q, *R), J("frm", 5, rng.randrange(2))]
        g = [rng.randint(-3, 3) * q for _ in range(7)]
        return [J("ld", 6, q, *R[:3], g[0], *R[3:6], g[1], *R[6:], g[2], *g[3:]), J("frm", 6, rng.randrange(2))]

    def tom():
        x, u, n = rotq()
        if max(map(abs, u)) > 60:
            u, n = uquat(rng, 13)
        m = rng.choice([5, 6])
        o = [J("ld", x, rng.choice([1, n]), *u)] if rng.random() < 0.8 else []
        return o + [J("tom", m, x, rng.randrange(2))]

    def mv():
        x = d()
        u, n = uquat(rng, 7)
        return [J("ld", x, n, *u), J("tom", 5, x, 0), J("ld", 3, 1, *[rng.randint(-6, 6) for _ in range(3)]), J("mv", 4, 3)]

    def rot():
        ax, n = axis(rng)
        return [J("ld", 3, 1, *[rng.randint(-5, 5) for _ in range(3)]),
                J("rot", d(), 3, *angle(rng, T=inst.T), *ax, n, rng.choice([0, 0, 1, -2, 3]), turns(rng))]

    def rax():
        s = v()
        return [J("ld", s, 1, *[rng.randint(-9, 9) for _ in range(3)]), J("rax", d(), s, rng.randrange(3), *angle(rng, T=inst.T), turns(rng))]

    def slrp():
        p, n = uquat(rng, 5)
        r, nr = uquat(rng, rng.choice([3, 5, 7, 9, 13]))
        # positive and not too small real part
        i = max(range(4), key=lambda i: abs(r[i]))
        if rng.random() < 0.7:
            r[i], r[3] = r[3], r[i]
        r[3] = abs(r[3])
        if rng.random() < 0.12:
            # nearly 90 degrees apart
            r, nr, m = rng.choice([([4, 2, 2, 5], 7, 2), ([6, 4, 2, 13], 15, 3), ([10, 4, 2, 1], 11, 1), ([5, 1, 1, 13], 14, 2)])
            i = r[:3]
            rng.shuffle(i)
            r = [x * rng.choice([1, -1]) for x in i] + r[3:]
            return J("slrp", d(), *((0, 0, 0, 1, 1) if nr > 14 else (*p, n)), *r, nr, rng.randint(0, m), m, rng.choice([1, 1, 2, -1, -3]), rng.choice([1, 1, -1, 2, -2]))
        m = rng.choice([1, 2, 2, 3, 4]) if nr <= 5 else rng.choice([1, 2, 3])
        j = rng.randint(0, m)
        return J("slrp", d(), *p, n, *r, nr, j, m, rng.choice([1, 1, 2, -1, -3]), rng.choice([1, 1, -1, 2, -2]))

    def slend():
        o = []
        x, y = d(), d()
        for z in (x, y):
            o.append(J("ld", z, rng.choice([1, 1, 2]), *[rng.randint(-6, 6) for _ in range(4)]))
        return o + [J("slend", x, y, rng.randrange(2))]

    def slin():
        p, n = uquat(rng, 3)
        r, nr = uquat(rng, rng.choice([1, 3, 3]) if inst.T == "float" else rng.choice([3, 5, 7]))
        m = rng.choice([1, 2, 2, 3])
        return J("slin", d(), *p, n, *r, nr, rng.randint(0, m), m, rng.choice([1, 2, 3, 4, 5, 7]), rng.choice([4, 4, 8]),
                 rng.choice([1, 1, 2, -3]), rng.choice([1, 1, -1, 2]))

    def eq():
        x, y = d(), d()
        o = []
        if rng.random() < 0.7:
            a = [rng.randint(-3, 3) for _ in range(4)]
            b = list(a)
            if rng.random() < 0.6:
                b[rng.randrange(4)] += rng.choice([1, -1])
            q = rng.choice([1, 2])
            o = [J("ld", x, q, *a), J("ld", y, q, *b)]
        return o + [J("eq", x, y)]

    def near():
        a = [rng.randint(-5, 5) for _ in range(4)]
        t = rng.choice([1, 2, 3, 4, 5, 6])
        b = [x + rng.choice([0, 0, 1, -1, 2, -2, 3]) for x in a]
        if rng.random() < 0.3:
            b = list(a)
            b[rng.randrange(4)] += rng.choice([0, 1, -1, 2, -3])
        if rng.random() < 0.25:
            # large differences at the border of the tolerance
            e = rng.choice([4097, 65537, 1 << 20] if f else [(1 << 24) + 1, (1 << 25) + 3, 100000007, 1 << 20])
            t = 2 * e
            i = rng.randrange(4)
            a = [rng.randint(-5, 5) for _ in range(4)]
            b = list(a)
            b[i] = a[i] + rng.choice([1, -1]) * (e + rng.choice([1, 0, -1, 1]))
        x, y = rng.sample(range(3), 2)
        z = 1 if t == 1 and k == 0 and rng.random() < 0.5 else 0
        return [J("ld", x, 1, *a), J("ld", y, 1, *b), J("near", x, y, t, z)]

    def eqs():
        s = rng.choice([0, 1, -1, 2, 3])
        a = [0, 0, 0, rng.choice([s, s, s + 1])]
        if rng.random() < 0.3:
            i, j = rng.sample(range(3), 2)
            a[i] = rng.choice([1, -1, 2])
            a[j] = -a[i]
        if rng.random() < 0.4:
            a[rng.randrange(3)] = rng.choice([1, -1])
        x = d()
        return [J("ld", x, 1, *a), J("eqs", x, s)]
    ip = lambda op: (lambda: (lambda x, y: J(op, x, x if y[1] else y[0], y[2], y[1]))(d(), (d(), rng.randrange(2), 0)))

    def sop(op, vals):
        def g():
            x, y, fo = d(), d(), rng.randrange(2)
            return J(op, x, x if fo else y, rng.choice(vals), fo) + (" 1" if k and rng.random() < 0.3 else "")
        return g

    def vop(op):
        def g():
            x, y, fo = d(), d(), rng.randrange(2)
            return J(op, x, x if fo else y, v(), fo)
        return g
    table = [
        ("ld", 4, ldq), ("ldv", 2, ldv_),
        ("add", 2, P(lambda: J("add", d(), d(), d()))), ("sub", 2, P(lambda: J("sub", d(), d(), d()))),
        ("mul", 4, P(lambda: J("mul", d(), d(), d()))),
        ("addip", 2, lambda: J("addip", d(), d())), ("subip", 2, lambda: J("subip", d(), d())), ("mulip", 3, P(lambda: J("mulip", d(), d()))),
        ("muls", 3, sop("muls", [2, 3, -1, -2, 0, 5])), ("divs", 3, P(sop("divs", [2, 3, -2, 5, 0, 1]))),
        ("neg", 2, lambda: J("neg", d(), d(), rng.randrange(2))),
        ("conj", 2, lambda: (lambda x, fo: J("conj", x, x if fo else d(), fo))(d(), rng.randrange(2))),
        ("inv", 3, P(lambda: J("inv", d(), d()))),
        ("cp", 1, lambda: J("cp", d(), d(), rng.randrange(2))), ("zero", 0.5, lambda: J("zero", d())),
        ("named", 1, lambda: J("named", d(), rng.randint(1, 4), rng.randrange(2), rng.randrange(2))),
        ("set", 2, lambda: J("set", d(), rng.randrange(11), *[rng.randint(-9, 9) for _ in range(4)])),
        ("addv", 2, V(vop("addv"))), ("subv", 2, V(vop("subv"))), ("mulv", 3, V(vop("mulv"))),
        ("fromv", 2, V(lambda: (lambda fo: J("fromv", d(), v(), 0 if fo == 2 else rng.randint(-5, 5), fo))(rng.randrange(3)))),
        ("cross", 2, P(lambda: J("cross", v(), d(), d()))), ("dot", 2, P(lambda: J("dot", d(), d(), rng.randrange(2)))),
        ("sqabs", 1, P(lambda: J("sqabs", d()))), ("abs", 2, P(lambda: J("abs", d()))),
        ("norm", 4, P(lambda: J("norm", d(), rng.randrange(2)))),
        ("normw", 1, lambda: (lambda x: [ldw(x), J("norm", x, rng.randrange(2))])(d())),
        ("eq", 2, eq), ("eqs", 1, eqs), ("nan", 0.5, P(lambda: J("nan", d(), d(), rng.randrange(4)))), ("near", 2, near), ("find", 1, P(lambda: J("find", d(), rng.randrange(2)))),
        ("tom", 3, tom), ("frm", 6, frm), ("mv", 2, mv), ("rot", 3, rot), ("rax", 3, rax),
        ("slrp", 5, slrp), ("slin", 4, slin), ("slend", 4, slend),
    ]
    return behaviour(rng, inst, nops, weigh(table, weights), [ldq(), ldq(), ldv_()], k)


def I_affine(T):
    return Inst("Affine<%s>" % T, "affine", [4], "affine.hpp", g_affine, T)


def I_matvec(M, N, T):
    return Inst("MatVec<%d,%d,%s>" % (M, N, T), "matvec", [M, N], "affine.hpp", g_matvec, T)


def I_quat(T):
    return Inst("Quat<%s>" % T, "quat", [4], "affine.hpp", g_quat, T)
