"""Scripts for the geometry machines."""
from .genaff import *


def g_aabb(rng, inst, nops, weights, **opt):
    fl = inst.isf
    b = lambda: rng.randrange(3)
    p = lambda: rng.choice([3, 4])
    q = lambda: pick(rng, [(6, 1), (1, 2), (1, 4), (0.3, 3)]) if fl else 1
    c = lambda: pick(rng, [(5, lambda: rng.randint(-4, 4)), (2, lambda: rng.randint(-30, 30)), (1, lambda: 0)])()

    def ldb():
        lo = [c() for _ in range(3)]
        hi = [x + rng.choice([1, 2, 3, 5, 8]) for x in lo]
        if rng.random() < 0.15:
            i = rng.randrange(3)
            hi[i] = lo[i] - rng.choice([0, 0, 1])
        return J("ld", b(), q(), *lo, *hi)
    ldp = lambda: J("ld", p(), q(), *[c() for _ in range(3)])

    def ldlike():
        # a point next to a corner of a simple box, and the queries on it
        x, y = b(), p()
        lo = [rng.randint(-3, 3) for _ in range(3)]
        hi = [v + rng.choice([1, 2, 3]) for v in lo]
        pt = [rng.choice([l, h, l - 1, h + 1, l + 1, h - 1]) if rng.random() < 0.5 else rng.randint(l, h) for l, h in zip(lo, hi)]
        qq = rng.choice([1, 1, 2]) if fl else 1
        return [J("ld", x, qq, *lo, *hi), J("ld", y, qq, *pt), J("in", x, y), J("in2", x, y)]

    def ins():
        x = b()
        lo = [rng.randint(-6, 2) for _ in range(3)]
        hi = [v + rng.choice([4, 6, 7]) for v in lo]
        r = rng.choice([0, 1, 2, 3])
        ce = [rng.choice([l + r, h - r, (l + h) // 2, l + r - 1, h - r + 1, l, h]) for l, h in zip(lo, hi)]
        if rng.random() < 0.6:
            i = rng.randrange(3)
            ce = [ce[i] if j == i else (lo[j] + hi[j]) // 2 for j in range(3)]
            r = min(r, 2)
        return [J("ld", x, 1, *lo, *hi), J("ld", 5, 1, *ce, r), J("ins", x)]

    def wide():
        # large boxes and spheres
        x, y = b(), p()
        e = {"float": 1 << 18, "short": 1 << 9}.get(inst.T, 1 << 25)
        r = e - rng.choice([1, 3, 7])
        lo = [rng.randint(-9, 9) for _ in range(3)]
        w = [rng.choice([0, 0, 1, 2, -1]) for _ in range(3)]
        hi = [l + 2 * r + d for l, d in zip(lo, w)]
        ce = [l + r + rng.choice([0, 0, d, 1]) for l, d in zip(lo, w)]
        pt = [rng.choice([l, h, l - 1, h + 1]) if rng.random() < 0.3 else m for l, h, m in zip(lo, hi, ce)]
        return [J("ld", x, 1, *lo, *hi), J("ld", 5, 1, *ce, r), J("ld", y, 1, *pt)] + \
            rng.sample([J("ins", x), J("in", x, y), J("ctr", x), J("dim", x), J("emp", x), J("ball", x, rng.randrange(3)), J("mgp", x, y)], 4)

    def ldsph():
        return J("ld", 5, q(), c(), c(), c(), rng.choice([0, 1, 2, 3, 7, 20] + ([-2] if rng.random() < 0.1 else [])))

    def eq():
        x, y = b(), b()
        if rng.random() < 0.7:
            v = [rng.randint(-3, 3) for _ in range(6)]
            w = list(v)
            if rng.random() < 0.6:
                w[rng.randrange(6)] += rng.choice([1, -1])
            return [J("ld", x, 1, *v), J("ld", y, 1, *w), J("eq", x, y)]
        return J("eq", x, y)

    def emp():
        x = b()
        if rng.random() < 0.6:
            lo = [rng.randint(-3, 3) for _ in range(3)]
            hi = [v + rng.choice([1, 2]) for v in lo]
            i = rng.randrange(3)
            hi[i] = lo[i] + rng.choice([0, 0, -1, 1])
            return [J("ld", x, q(), *lo, *hi), J("emp", x)]
        return J("emp", x)

    def sca():
        x, y, f, fo = b(), b(), rng.randrange(4), rng.randrange(2)
        n = rng.choice([2, 3, -1, 4, 5, -2, 0] if f != 1 else [2, 3, -1, 4, -2, 1])
        return ([J("ld", x if fo else y, 1, *[6 * c() for _ in range(6)])] if f == 1 or rng.random() < 0.3 else []) + [J("sca", x, x if fo else y, f, n, fo)]
    em = lambda: J("empty", b(), rng.randrange(2))
    mgp = lambda: [ldp(), J("mgp", b(), p())] if rng.random() < 0.6 else J("mgp", b(), p())

    def hull():
        # reset and merge a few
        x = b()
        o = [J("empty", x, rng.randrange(2))]
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5:
                o += [ldp(), J("mgp", x, p())]
            else:
                o += [J("mgb", x, b())]
        return o + [J(*z) for z in rng.sample([("emp", x), ("ctr", x), ("dim", x), ("get", x, rng.randrange(2), p(), 1)], 2)]
    table = [
        ("ldb", 3, ldb), ("ldp", 3, ldp), ("lds", 2, ldsph), ("empty", 2, em), ("unit", 0.5, lambda: J("unit", b())),
        ("cp", 1, lambda: J("cp", b(), b(), rng.randrange(2))), ("box", 2, lambda: J("box", b(), p(), p(), rng.randrange(2))),
        ("smin", 1.5, lambda: J("smin", b(), p(), rng.randrange(2))), ("smax", 1.5, lambda: J("smax", b(), p(), rng.randrange(2))),
        ("ball", 3, lambda: [ldsph(), J("ball", b(), rng.randrange(3))]), ("mgp", 4, mgp), ("mgb", 4, lambda: J("mgb", b(), b())),
        ("hull", 3, hull), ("wide", 2, wide), ("sca", 4, sca), ("in", 4, ldlike), ("in0", 1, lambda: J(rng.choice(["in", "in2"]), b(), p())),
        ("ins", 4, ins), ("emp", 3, emp), ("ctr", 2, lambda: J("ctr", b())), ("dim", 2, lambda: J("dim", b())),
        ("eq", 3, eq), ("get", 2, lambda: J("get", b(), rng.randrange(2), p(), rng.randrange(2))),
    ]
    out = behaviour(rng, inst, nops, weigh(table, weights), [ldb(), ldp(), ldp(), ldsph()], scale_k(rng, inst, 20) if fl else 0)
    if inst.T in UNSIGNED:
        # all coordinates are moved into the positive
        for i, l in enumerate(out):
            w = l.split()
            if w[0] == "ld":
                n = len(w) - (1 if w[1] == "5" else 0)
                w[3:n] = [str(int(x) + 240) for x in w[3:n]]
                w[n:] = [x.lstrip("-") for x in w[n:]]
                out[i] = " ".join(w)
    return out


def g_frustum(rng, inst, nops, weights, **opt):
    d = lambda: rng.randrange(2)

    def six():
        l, b = rng.randint(-6, 3), rng.randint(-6, 3)
        v = [l, l + rng.choice([1, 2, 3, 4, 5, 6, 8]), b, b + rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 2, 3, 4]), 0]
        v[5] = v[4] + rng.choice([1, 2, 3, 5, 9, 10])
        if rng.random() < 0.3:
            v[0], v[1] = -abs(v[1]) - 1, abs(v[1]) + 1
        if rng.random() < 0.15:
            i = rng.choice([0, 2, 4])
            v[i], v[i + 1] = v[i + 1], v[i]
        if rng.random() < 0.1:
            v[4], v[5] = -v[4], v[5] + 1
        return v
    set_ = lambda: J("set", d(), rng.randrange(6), pick(rng, [(4, 1), (1, 2), (1, 4), (1, 3)]), *six())

    def on(f):
        def g():
            x = d()
            return [J("set", x, rng.randrange(6), pick(rng, [(4, 1), (1, 2)]), *six()), f(x)] if rng.random() < 0.65 else f(x)
        return g

    def persp():
        tn, td = rng.choice([(1, 1), (1, 2), (3, 4), (2, 1), (1, 3), (4, 3), (1, 5), (5, 2)])
        an, ad = rng.choice([(1, 1), (4, 3), (16, 9), (1, 2), (3, 2), (2, 1)])
        n = rng.choice([1, 2, 3, 5])
        x, far = d(), n + rng.choice([1, 5, 10, 99])
        if rng.random() < 0.3:
            # the same but for a slight change
            t2, a2, n2, f2 = (tn, td), (an, ad), n, far
            r = rng.randrange(4)
            if r == 0:
                t2 = (tn * 64 + rng.choice([1, -1]), td * 64)
                a2 = an, ad = rng.choice([(1, 1), (1, 2), (2, 1)])
            elif r == 1:
                a2 = (an * 32 + rng.choice([1, -1]), ad * 32)
                t2 = tn, td = rng.choice([(1, 1), (1, 2), (2, 1)])
            elif r == 2:
                n2 += 1
                f2 = far = far + 1
            else:
                f2 += 1
            return [J("persp", x, tn, td, an, ad, n, far), J("persp", x, *t2, *a2, n2, f2)]
        return [J("persp", x, tn, td, an, ad, n, far)]
    table = [
        ("set", 4, set_), ("cp", 1.5, lambda: J("cp", d(), d(), rng.randrange(2))), ("dflt", 0.7, lambda: J("dflt", d())), ("none", 0.4, lambda: J("none", d())),
        ("wr", 2, lambda: J("wr", d(), rng.randrange(6), rng.choice([1, 2, 3, 5, -1, -3, 7]))), ("rd", 2, lambda: J("rd", d(), rng.randrange(6))),
        ("mat", 6, on(lambda x: J("mat", x, rng.randrange(2)))), ("orth", 6, on(lambda x: J("orth", x, rng.randrange(2)))),
        ("adj", 5, on(lambda x: J("adj", x, *rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (3, 2), (1, 4), (3, 4), (6, 1), (4, 1), (65, 64), (33, 32), (31, 32), (1025, 1024), (4097, 4096), (8191, 8192), (2049, 1024)])))),
        ("jit", 4, on(lambda x: J("jit", x, rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([1, 2, 4])))),
        ("persp", 3, lambda: persp() + ([J("mat", 0, 0)] if rng.random() < 0.3 else [])), ("wh", 3, on(lambda x: J("wh", x))),
    ]
    return behaviour(rng, inst, nops, weigh(table, weights), [set_(), set_()], scale_k(rng, inst, 12))


# --- culling: planes as in the specification, used only to choose inputs of
# interest and of a size TLC can compute with

def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _sub(a, b):
    return [x - y for x, y in zip(a, b)]


FACES = ((0, 2, 4), (1, 3, 5), (2, 3, 6), (0, 1, 4), (0, 1, 2), (4, 5, 6))


def planes_m(m):
    r = [m[4 * i:4 * i + 4] for i in range(4)]
    return [[a + s * b for a, b in zip(r[3], r[i])] for i in range(3) for s in (1, -1)]


def planes_c(c):
    o = []
    mid = [sum(p[j] for p in c) for j in range(3)]
    for f in FACES:
        n = _cross(_sub(c[f[1]], c[f[0]]), _sub(c[f[2]], c[f[0]]))
        w = -_dot(n, c[f[0]])
        if _dot(n, mid) + 8 * w < 0:
            n, w = [-x for x in n], -w
        o.append(n + [w])
    return o


def reduce_p(p):
    from math import gcd
    g = 0
    for x in p:
        g = gcd(g, abs(x))
    return [x // max(1, g) for x in p]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def det3(a):
    return _dot(a[0], _cross(a[1], a[2]))


def int_affine(rng, small=2, shift=6):
    while True:
        r = rng.random()
        if r < 0.3:
            a = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        elif r < 0.6:
            # signed permutation
            p = [0, 1, 2]
            rng.shuffle(p)
            a = [[0] * 3 for _ in range(3)]
            for i in range(3):
                a[i][p[i]] = rng.choice([1, -1])
        else:
            a = [[rng.randint(-small, small) for _ in range(3)] for _ in range(3)]
        if det3(a) > 0:
            return a, [rng.randint(-shift, shift) if rng.random() < 0.7 else 0 for _ in range(3)]


def gen_matrix(rng):
    """(16 integers, a hint point)"""
    while True:
        r = rng.random()
        if r < 0.2:
            m = [[rng.randint(-4, 4) for _ in range(4)] for _ in range(4)]
        else:
            if r < 0.55:
                # perspective, scaled to integers
                x, y = rng.randint(1, 4), rng.randint(1, 4)
                n = rng.randint(1, 3)
                f = n + rng.choice([1, 2, 4, 8])
                e = f - n
                P = [[x * e, 0, rng.choice([0, 0, 1, -1]) * e, 0], [0, y * e, rng.choice([0, 0, 1]) * e, 0], [0, 0, -(f + n), -2 * f * n], [0, 0, -e, 0]]
            else:
                w = rng.choice([1, 2, 4, 8, 5, 12])
                P = [[rng.choice([1, 1, 2]), 0, 0, rng.randint(-3, 3)], [0, rng.choice([1, 1, 2, 3]), 0, rng.randint(-3, 3)],
                     [0, 0, rng.choice([-1, -1, -2, 1]), rng.randint(-3, 3)], [0, 0, 0, w]]
            a, t = int_affine(rng)
            V = [a[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]
            m = matmul(P, V)
        flat = [x for row in m for x in row]
        pl = planes_m(flat)
        if all(any(p[:3]) for p in pl) and max(map(abs, flat)) < 400:
            return flat, [reduce_p(p) for p in pl], 0


def gen_corners(rng):
    while True:
        l, b = rng.randint(-4, 2), rng.randint(-4, 2)
        r, t = l + rng.choice([1, 2, 4, 3]), b + rng.choice([1, 2, 4, 3])
        n = rng.randint(1, 3)
        if rng.random() < 0.7:
            s = rng.choice([2, 3, 4])
            far = [(s * x, s * y, -s * n) for x, y in ((l, t), (r, t), (l, b), (r, b))]
        else:
            d = [rng.randint(-2, 2), rng.randint(-2, 2), -rng.randint(1, 6)]
            far = [(x + d[0], y + d[1], -n + d[2]) for x, y in ((l, t), (r, t), (l, b), (r, b))]
        pts = [(x, y, -n) for x, y in ((l, t), (r, t), (l, b), (r, b))] + far
        a, tr = int_affine(rng)
        c = [[_dot(a[i], p) + tr[i] for i in range(3)] for p in pts]
        if rng.random() < 0.25:
            k = rng.choice([2, 4])
            c = [[k * x for x in p] for p in c]
        pl = planes_c(c)
        if any(not any(p[:3]) for p in pl):
            continue
        if max(abs(x) for p in pl for x in p) > 100000 or max(abs(x) for p in c for x in p) > 150:
            continue
        big = max(sum(abs(x) for x in p[:3]) * max(abs(x) for y in c for x in y) for p in [reduce_p(p) for p in pl])
        return c, [reduce_p(p) for p in pl], big


def g_culler(rng, inst, nops, weights, **opt):
    lim = 10000 if inst.T == "float" else 40000
    out = [inst.start(scale_k(rng, inst, 10))]

    def ok(pl, pt, r, extra):
        for p in pl:
            N = _dot(p[:3], p[:3])
            if r * r * N >= 2 ** 30:
                return False
            if sum(abs(a * b) for a, b in zip(p, pt)) + abs(p[3]) + sum(map(abs, p[:3])) * r + extra >= lim:
                return False
        return True

    def inside(pl):
        # some point with few violated planes
        best = None
        R = rng.choice([4, 10, 25])
        for _ in range(30):
            x = [rng.randint(-R, R) for _ in range(3)]
            s = sum(_dot(p[:3], x) + p[3] <= 0 for p in pl)
            if best is None or s < best[0]:
                best = (s, x)
            if s == 0:
                break
        return best[1]
    done = 0
    last = None
    while done < nops:
        if last and rng.random() < 0.3:
            # as before, but for one row or element
            m = list(last)
            i = rng.randrange(4)
            if rng.random() < 0.6:
                f = rng.choice([2, 3, -1, 4])
                m[4 * i:4 * i + 4] = [f * x for x in m[4 * i:4 * i + 4]]
            else:
                m[4 * i + rng.randrange(4)] += rng.choice([1, -1, 2])
            pl, extra = planes_m(m), 0
            if not all(any(p[:3]) for p in pl) or max(map(abs, m)) >= 400:
                continue
            pl = [reduce_p(p) for p in pl]
            last = m
            out += [J("ld", 0, 1, *m), J("setm", rng.choice([0, 0, 0, 0, 1, -3]))]
        elif rng.random() < 0.07:
            # planes whose normals are nearly of unit length
            e = rng.choice([4, 5, 6])
            D = [(1 << e) + rng.choice([1, -1, 0]) for _ in range(3)]
            w = rng.choice([10, 20, 40]) << e
            m = [D[0], 0, 0, 0, 0, D[1], 0, 0, 0, 0, D[2], 0, 0, 0, 0, w]
            pl, extra = [reduce_p(p) for p in planes_m(m)], 0
            last = m
            out += [J("ld", 0, 1, *m), J("setm", -e)]
        elif rng.random() < 0.5:
            m, pl, extra = gen_matrix(rng)
            last = m
            out += [J("ld", 0, 1, *m), J("setm", rng.choice([0, 0, 0, 1, -8, 10, -13] + ([30, -30, -40] if inst.T == "float" else [60, -60, 200, -250])))]
        else:
            c, pl, extra = gen_corners(rng)
            out += [J("ld", 1, 1, *[x for p in c for x in p]), "setc"]
        done += 2
        good = 0
        for _ in range(12):
            x = inside(pl)
            if rng.random() < 0.5:
                # near one of the planes
                p = rng.choice(pl)
                N = _dot(p[:3], p[:3])
                t = -(_dot(p[:3], x) + p[3]) / N
                x = [int(round(a + b * t)) + rng.choice([0, 0, 0, 1, -1, 2]) for a, b in zip(x, p)]
            d = [abs(_dot(p[:3], x) + p[3]) / _dot(p[:3], p[:3]) ** .5 for p in pl]
            if rng.random() < 0.55:
                r = max(0, int(rng.choice(d + [min(d), min(d), min(d), 1, 2])) + rng.choice([0, 0, 1, -1]))
                if not ok(pl, x, r, extra):
                    continue
                out += [J("ld", 2, 1, *x, r), "sph"]
            else:
                e = [rng.choice([0, 1, 1, 2, 3, 6]) for _ in range(3)]
                lo = [a - b for a, b in zip(x, e)]
                hi = [a + rng.choice([0, 1, 2, 5]) for a in x]
                if rng.random() < 0.2:
                    lo, hi = hi, lo
                if not ok(pl, [max(abs(a), abs(b)) for a, b in zip(lo, hi)], 0, extra):
                    continue
                out += [J("ld", 3, 1, *[y for z in zip(lo, hi) for y in z]), "box"]
            done += 2
            good += 1
            if good > 7:
                break
    return out


def g_ray(rng, inst, nops, weights, **opt):
    out = [inst.start(scale_k(rng, inst, 14))]
    c = lambda m: rng.randint(-m, m)
    for _ in range(nops):
        m = rng.choice([3, 6, 10])
        o = [c(m) for _ in range(3)]
        s = [c(m) for _ in range(3)]
        if rng.random() < 0.6:
            d, n = axis(rng, 9)
        else:
            d = [rng.randint(-4, 4) for _ in range(3)]
            if not any(d):
                d = [1, 0, 0]
        if rng.random() < 0.3:
            d = [rng.choice([1, -1]) if i == rng.randrange(3) else 0 for i in range(3)]
            if not any(d):
                d = [0, 1, 0]
        r = rng.choice([0, 1, 2, 3, 4, 6, 9, 15])
        if rng.random() < 0.5:
            # aim at the sphere
            t = rng.choice([1, 2, 3, 4, -1, -2])
            s = [a + t * b for a, b in zip(o, d)]
            if rng.random() < 0.6:
                i = rng.randrange(3)
                s[i] += rng.choice([-2, -1, 1, 2])
            r = rng.choice([1, 2, 3, 5])
        if rng.random() < 0.15:
            # the origin on the surface
            ax, n = axis(rng, 7)
            o = [a + b for a, b in zip(s, ax)]
            r = n
        if max(map(abs, s + o)) > 22:
            continue
        which = rng.random()
        if rng.random() < 0.12:
            w = rng.randint(30, 1900) if inst.T == "float" else rng.choice([rng.randint(30, 9999), rng.randint(1 << 24, 1 << 25)])
            p, t, r = rng.choice([(0, 3, 3), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (24, 7, 25), (5, 0, 3), (9, 0, 8)])
            out += [J("ld", 0, 1, *o), J("axis", rng.randrange(3), rng.choice([1, -1]), w if rng.random() < 0.85 else -w, p, t, r)]
        out += [J("ld", 0, 1, *o), J("ld", 1, 1, *d), J("ld", 2, 1, *s, r), "hit"]
        if which < 0.15:
            out.append("hit")
    return out


def I_aabb(T):
    return Inst("Aabb<%s>" % T, "aabb", [3], "geo.hpp", g_aabb, T)


def I_frustum(T):
    return Inst("Frust<%s>" % T, "frustum", [4], "geo.hpp", g_frustum, T)


def I_culler(T):
    return Inst("Culler<%s>" % T, "culler", [1 if T == "float" else 0], "geo.hpp", g_culler, T)


def I_ray(T):
    return Inst("Ray<%s>" % T, "ray", [1 if T == "float" else 0], "geo.hpp", g_ray, T)
