"""Random command scripts for the machines of the specification.

A script is stateless: the executor skips (without recording anything) the
commands that would leave the range in which the arithmetic of the library is
reliable, so the generator need not track the state.
"""

FLOATS = ("float", "double", "long double")
UNSIGNED = ("unsigned char", "unsigned short", "unsigned int", "size_t")
WIDE = ("int64_t", "size_t")
# values next to the limits of the narrower types
EDGES = {"float": (255, 256, 65535, 65536, 1000003, 4194304), "unsigned char": (255, 254, 128, 127), "signed char": (127, -127, 64, -100), "char": (127, 100, 64),
         "short": (32767, -32767, 255, 256, -256, 128), "unsigned short": (65535, 65534, 32768, 256)}
EDGE = (255, 256, 127, 128, 32767, 32768, 65535, 65536, 16777217, 33554433, 134217727, 100000007)


class Inst:
    """A machine instance: C++ type, kind and parameters in the spec."""
    header = None

    def __init__(self, cpp, kind, par, header, gen, T="float", **attr):
        self.cpp, self.kind, self.par, self.header = cpp, kind, list(par), header
        self.genf, self.T, self.attr = gen, T, attr
        self.key = kind + "_" + "".join(c if c.isalnum() else "_" for c in cpp)

    @property
    def isf(self):
        return self.T in FLOATS

    def start(self, k=0):
        return "@ %s %s %d %s" % (self.key, self.kind, k, " ".join(map(str, self.par)))


def pick(rng, table):
    """table: list of (weight, value)"""
    t = sum(w for w, _ in table)
    x = rng.random() * t
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


def val(rng, T, mode=None):
    mode = mode or pick(rng, [(5, "s"), (3, "m"), (1, "l"), (1, "z"), (0.4, "e")])
    if mode == "z":
        return 0
    if mode == "e":
        x = rng.choice(EDGES.get(T, EDGE))
        return x if T in UNSIGNED else x * rng.choice([1, 1, -1])
    hi = {"s": 3, "m": 20, "l": 1000}[mode]
    if T in ("char", "signed char", "unsigned char"):
        hi = min(hi, 100)
    return rng.randint(0 if T in UNSIGNED else -hi, hi)


LIMITS = {"unsigned char": (0, 255), "signed char": (-127, 127), "char": (-127, 127), "short": (-32767, 32767), "unsigned short": (0, 65535)}


def clip(T, x):
    lo, hi = LIMITS.get(T, (0 if T in UNSIGNED else -2**28, 2**28))
    return max(lo, min(hi, x))


def joint(T, U):
    """a type whose generated values both types represent"""
    o = [x for x in (T, U) if x in LIMITS]
    o.sort(key=lambda x: LIMITS[x][1])
    if o:
        return {"signed char": "unsigned char", "short": "unsigned char"}.get(o[0], o[0]) if T in UNSIGNED or U in UNSIGNED else o[0]
    if "size_t" in (T, U) or "unsigned int" in (T, U):
        return "unsigned short" if "float" in (T, U) else "unsigned int"
    return "float" if "float" in (T, U) else "int"


def mat(rng, r, c, T, mode=None):
    """structured random r x c matrix, row-major"""
    mode = mode or pick(rng, [(6, "dense"), (2, "sparse"), (2, "diag"), (2, "affine"),
                              (1, "perm"), (1, "tri"), (2, "singular"), (2, "sym"),
                              (1, "zero"), (1, "big"), (1, "const"), (1, "ortho"),
                              (1, "distinct"), (1, "neg"), (1, "unit"), (0.7, "edge")])
    m = [[0] * c for _ in range(r)]
    w = pick(rng, [(4, "s"), (2, "m")])
    u = T in UNSIGNED
    if mode in ("dense", "sym", "tri", "singular", "affine", "big", "neg"):
        if mode == "big":
            w = "l"
        for i in range(r):
            for j in range(c):
                m[i][j] = val(rng, T, w)
    if mode == "edge":
        for i in range(r):
            for j in range(c):
                m[i][j] = val(rng, T, pick(rng, [(3, "e"), (1, "s"), (1, "m")]))
    if mode == "neg" and not u:
        for i in range(r):
            for j in range(c):
                m[i][j] = -abs(m[i][j]) - 1
    if mode == "sparse":
        for _ in range(rng.randint(1, max(1, r * c // 3))):
            m[rng.randrange(r)][rng.randrange(c)] = val(rng, T, w)
    elif mode == "diag":
        for i in range(min(r, c)):
            m[i][i] = val(rng, T, w)
    elif mode == "sym":
        for i in range(r):
            for j in range(c):
                if j < i and j < r and i < c:
                    m[i][j] = m[j][i]
    elif mode == "tri":
        lo = rng.random() < 0.5
        for i in range(r):
            for j in range(c):
                if (j > i) if lo else (j < i):
                    m[i][j] = 0
    elif mode == "affine":
        for j in range(c):
            m[r - 1][j] = 1 if j == c - 1 else 0
    elif mode == "perm":
        p = list(range(max(r, c)))
        rng.shuffle(p)
        for i in range(r):
            if p[i] < c:
                m[i][p[i]] = 1 if u else rng.choice([1, 1, -1])
    elif mode == "singular" and r > 1:
        i, j = rng.sample(range(r), 2)
        f = 1 if u else rng.choice([1, -1, 2, 0])
        m[i] = [f * x for x in m[j]]
        if T in ("char", "signed char", "unsigned char"):
            m[i] = [max(-100, min(100, x)) for x in m[i]]
    elif mode == "const":
        x = val(rng, T, w)
        m = [[x] * c for _ in range(r)]
    elif mode == "ortho":
        for i in range(r):
            m[i][(i + 1) % c] = val(rng, T, "s")
    elif mode == "distinct":
        xs = list(range(1, r * c + 1))
        rng.shuffle(xs)
        if not u:
            xs = [x * rng.choice([1, 1, -1]) for x in xs]
        m = [xs[i * c:(i + 1) * c] for i in range(r)]
    elif mode == "unit":
        m[rng.randrange(r)][rng.randrange(c)] = 1 if u else rng.choice([1, -1, 5])
    return [clip(T, x) if T in LIMITS else x for row in m for x in row]


def ld(rng, inst, d, r, c, mode=None, q=None):
    if q is None:
        q = pick(rng, [(8, 1), (1, 2), (1, 4), (0.5, 3), (0.5, 5)]) if inst.isf else 1
    m = mat(rng, r, c, inst.T, mode)
    if q not in (1, 2, 4) and max(map(abs, m), default=0) > 60000:
        q = 1
    return "ld %d %d %s" % (d, q, " ".join(map(str, m)))


def behaviour(rng, inst, nops, table, init, k):
    """init: lines; table: [(weight, fn() -> line or list)]"""
    out = [inst.start(k)] + list(init)
    table = [(w, f) for w, f in table if w > 0]
    for _ in range(nops):
        x = pick(rng, table)()
        out.extend(x if isinstance(x, list) else [x])
    return out


def weigh(table, weights):
    """weights: {op: w}; with a key '*' giving the default"""
    if not weights:
        return [(w, f) for _, w, f in table]
    d = weights.get("*", 1.0)
    return [(weights.get(n, w * d), f) for n, w, f in table]


def scale_k(rng, inst, hi):
    if inst.T in WIDE:
        return rng.choice([0, 0, 1, 5, 11, 17, 24, 31, 33])
    if not inst.isf or rng.random() < 0.6:
        return 0
    if rng.random() < 0.25:
        hi = max(hi, 27)
    if inst.T != "float":
        hi *= 4
    return rng.randint(-hi, hi)


# --------------------------------------------------------------------------
# matrices

def g_matstore(rng, inst, nops, weights, oob=True, noconv=False):
    M, N, A, B = inst.par
    T = inst.T
    nx = 2

    def ix(n):  # index, possibly out of bounds
        if oob and rng.random() < weights.get("oob", 0.06):
            return rng.choice([n, n, n + 1, -1, n + 7, -2, 1000])
        return rng.randrange(n)

    def pth(cst_ok=True):
        p = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
        c = 0
        if cst_ok and rng.random() < 0.5:
            c = 10
        if noconv and p == 6:
            p = 7
        return p, c

    def safe(p):  # paths with a bounds check
        return p in (0, 1, 2, 3)

    def wr():
        i, j = ix(M), ix(N)
        p, _ = pth(False)
        if not (0 <= i < M and 0 <= j < N):
            p = rng.choice([0, 1, 2, 3])
        return "wr %d %d %d %d %d" % (rng.randrange(nx), p, i, j, val(rng, T))

    def rd():
        i, j = ix(M), ix(N)
        p, c = pth()
        if not (0 <= i < M and 0 <= j < N):
            c = rng.choice([0, 10])
            p = rng.choice([0, 1, 2, 3])
        return "rd %d %d %d %d" % (rng.randrange(nx), p + c, i, j)

    def all_():
        p, c = pth()
        return "all %d %d" % (rng.randrange(nx), p + c)

    d = lambda: rng.randrange(nx)

    def near():
        s = d()
        t = rng.choice([1, 2, 3, 4, 5, 6, 7, 12])
        o = []
        if rng.random() < 0.7:
            m = mat(rng, M, N, T)
            e = [x + rng.choice([0, 0, 0, 1, -1, 2, -3]) for x in m]
            if rng.random() < 0.5:  # only one element differs
                e = list(m)
                z = rng.randrange(M * N)
                e[z] += rng.choice([1, -1, 2, -3])
            e = [clip(T, x) for x in e]
            o = ["ld 0 1 " + " ".join(map(str, m)), "ld 1 1 " + " ".join(map(str, e))]
        if T in ("float", "double", "int") and rng.random() < 0.2:
            # a large difference at the border of the tolerance
            t = rng.choice([4097, 65537, 1 << 20] if T == "float" else [(1 << 24) + 1, (1 << 25) + 3, 100000007])
            m = [rng.randint(-5, 5) for _ in range(M * N)]
            e = list(m)
            z = rng.randrange(M * N)
            e[z] += rng.choice([1, -1]) * (t + rng.choice([0, 1, -1]))
            return ["ld 0 1 " + " ".join(map(str, m)), "ld 1 1 " + " ".join(map(str, e)), "near %d %d %d 0" % (s, 1 - s, 2 * t)]
        return o + (["near %d %d %d %d" % (s, 1 - s, t if inst.isf else 2 * t, rng.choice([0, 0, 1]))] if rng.random() < 0.7 else
                    ["near %d %d 1 2" % (s, 1 - s)])

    def sgeq():
        cols = rng.randrange(2)
        m = mat(rng, M, N, T, "dense")
        e = list(m)
        if T not in UNSIGNED:
            for l in range(N if cols else M):
                if rng.random() < 0.4:
                    for o in range(M if cols else N):
                        ii = o * N + l if cols else l * N + o
                        e[ii] = -e[ii]
            if rng.random() < 0.4:
                z = rng.randrange(M * N)
                e[z] = rng.choice([-e[z], e[z] + 1])
        e = [clip(T, x) for x in e]
        s = d()
        t = 0
        if T not in UNSIGNED and rng.random() < 0.5:
            t = rng.choice([1, 2, 3, 4, 5, 6])
            if not inst.isf:
                t *= 2
            if rng.random() < 0.7:
                for z in rng.sample(range(M * N), rng.randint(1, M * N)):
                    e[z] = clip(T, e[z] + rng.choice([0, 0, 1, -1, 2, -2]))
        return ["ld 0 1 " + " ".join(map(str, m)), "ld 1 1 " + " ".join(map(str, e)),
                "sgeq %d %d %d %d" % (s, 1 - s, rng.choice([cols, cols, 1 - cols]), t)]

    def eq():
        r = rng.random()
        if r < 0.4:
            return ["cp %d %d 0" % (1, 0), wr().replace("wr 1", "wr 0") if r < 0.25 else "dims 0",
                    "eq %d %d" % (d(), d())]
        if r < 0.6:
            m = mat(rng, M, N, T, "distinct")
            e = list(m)
            z = rng.randrange(M * N)
            e[z] = val(rng, T)
            return ["ld 0 1 " + " ".join(map(str, m)), "ld 1 1 " + " ".join(map(str, e)), "eq %d %d" % (d(), d())]
        return "eq %d %d" % (d(), d())

    def seti():
        n = pick(rng, [(4, M * N), (2, rng.randint(0, M * N)), (1, M * N + rng.randint(1, 3))])
        if rng.random() < .2:  # an array of rows, a pointer to the elements
            return "seti %d 1 %d %s" % (d(), rng.choice([4, 5]), " ".join(str(val(rng, T)) for _ in range(M * N)))
        return "seti %d %d %d %s" % (d(), rng.randrange(2), rng.randrange(4) if T == "double" else rng.randrange(3),
                                     " ".join(str(val(rng, T)) for _ in range(n)))

    def setv():
        n = pick(rng, [(4, M * N), (1.5, rng.randint(0, M * N)), (1, M * N + rng.randint(1, 3))])
        return "setv %d %s" % (d(), " ".join(str(val(rng, T)) for _ in range(n)))

    def sub(op):
        def f():
            i, j = rng.randint(0, max(0, M - A)), rng.randint(0, max(0, N - B))
            if oob and rng.random() < weights.get("oob", 0.06) * 2:
                i = rng.choice([i, M - A + 1, M, -1, M + 3])
                j = rng.choice([j, N - B + 1, N, -1, N + 3])
            if rng.random() < 0.15:
                i = j = 0
            return "%s %d %d %d %d" % (op, d(), i, j, rng.randrange(2))
        return f

    table = [
        ("ld", 3, lambda: ld(rng, inst, *rng.choice([(0, M, N), (1, M, N), (0, M, N), (2, M, 1), (3, N, 1), (4, A, B), (5, 1, N), (6, M, 1)]))),
        ("wr", 10, wr), ("rd", 6, rd), ("all", 3, all_),
        ("iter", 2, lambda: "iter %d %d %d" % (d(), rng.randrange(2), rng.randrange(2))),
        ("fill", 1, lambda: "fill %d %d %d" % (d(), rng.randrange(3), val(rng, T))),
        ("grow", 3, lambda: "grow %d %d %d" % (d(), ix(M), rng.randrange(3))),
        ("gcol", 3, lambda: "gcol %d %d %d" % (d(), ix(N), rng.randrange(3))),
        ("srow", 3, lambda: "srow %d %d %d" % (d(), ix(M), rng.randrange(2))),
        ("scol", 3, lambda: "scol %d %d %d" % (d(), ix(N), rng.randrange(2))),
        ("gsub", 3, sub("gsub")), ("ssub", 3, sub("ssub")),
        ("cp", 2, lambda: "cp %d %d %d" % (d(), d(), rng.randrange(3))),
        ("swap", 1, lambda: "swap %d %d" % (0, 1)),
        ("seti", 3, seti), ("setv", 2, setv), ("dims", 0.5, lambda: "dims %d" % d()),
        ("eq", 3, eq), ("near", 2, near), ("sgeq", 1.5, sgeq),
    ]
    if inst.isf:
        table.append(("nan", 0.4, lambda: "nan %d %d %d" % (d(), d(), rng.randrange(M * N))))
    if A > M or B > N:
        table = [t for t in table if t[0] not in ("gsub", "ssub")]
    init = [ld(rng, inst, i, M, N) for i in range(2)]
    init += [ld(rng, inst, 2, M, 1, q=1), ld(rng, inst, 3, N, 1, q=1), ld(rng, inst, 4, A, B, q=1),
             ld(rng, inst, 5, 1, N, q=1), ld(rng, inst, 6, M, 1, q=1)]
    if rng.random() < 0.2:
        init = []
    return behaviour(rng, inst, nops, weigh(table, weights), init, scale_k(rng, inst, 10))


DIVISORS = [49, 98, 103, 107, 2, 3, 5, 6, 7, 10, 11, 13, 1, 41, 47, 55, 61, 82, 83, 93, 110, 111, 113, 123, 127]


def multiples(rng, T, k, n):
    """dividends next to multiples of k, where a rounded reciprocal fails"""
    o = []
    for _ in range(n):
        m = rng.choice([1, 2, 3, 5, 6, 7, 10, 12, 14, 20, 24, 28, 40, 49, 56, 80, rng.randint(0, 300)])
        if T not in UNSIGNED:
            m *= rng.choice([1, 1, -1])
        if clip(T, m * k) != m * k:
            m = 1
        o.append(clip(T, m * k + rng.choice([0, 0, 0, 0, 1, -1])))
    return o


def g_matarith(rng, inst, nops, weights, oob=True, noconv=False):
    M, N, P = inst.par
    T = inst.T
    d = lambda: rng.randrange(3)
    sv = lambda: rng.choice([2, 3, -1, -2, 5, 0, 1, 7, 10]) if T not in UNSIGNED else rng.randint(0, 5)
    sc = lambda: " 1" if inst.isf and rng.random() < 0.3 else ""
    def divi():
        k, x, f = rng.choice(DIVISORS), d(), rng.randrange(2)
        v = "ld %d 1 %s" % (x, " ".join(map(str, multiples(rng, T, k, M * N))))
        return [v, "divi %d %d %d %d" % (x if f else d(), x, f, k if T in UNSIGNED else k * rng.choice([1, 1, -1]))]
    ints = [] if inst.isf else [("divi", 4, divi), ("sdivi", 1.5, lambda: [divi()[0], "sdivi %d %d %d" % (d(), rng.randrange(M), rng.randrange(N))])]
    table = ints + [
        ("ld", 6, lambda: ld(rng, inst, *rng.choice([(0, M, N), (1, M, N), (2, M, N), (3, N, P), (5, N, M), (6, N, 1)]))),
        ("add", 3, lambda: "add %d %d %d" % (d(), d(), d())),
        ("sub", 3, lambda: "sub %d %d %d" % (d(), d(), d())),
        ("addip", 3, lambda: "addip %d %d" % (d(), d())),
        ("subip", 3, lambda: "subip %d %d" % (d(), d())),
        ("neg", 2, lambda: "neg %d %d %d" % (d(), d(), rng.randrange(2))),
        ("shift", 3, lambda: "shift %d %d %d" % (d(), rng.randrange(2), sv())),
        ("muls", 3, lambda: (lambda x, y, f: "muls %d %d %d %d" % (x, x if f else y, f, sv()) + sc())(d(), d(), rng.randrange(2))),
        ("divs", 3, lambda: (lambda x, y, f: "divs %d %d %d %d" % (x, x if f else y, f, rng.choice([2, 3, -4, 5, -1, 1, 8])) + sc())(d(), d(), rng.randrange(2))),
        ("self", 1, lambda: "self %d %d %d" % (d(), rng.randrange(M), rng.randrange(N))),
        ("selfd", 1, lambda: (lambda x: [ld(rng, inst, x, M, N, q=1), "selfd %d %d %d" % (x, rng.randrange(M), rng.randrange(N))])(d())),
        ("selfs", 1, lambda: "selfs %d %d %d %d" % (d(), rng.randrange(M), rng.randrange(N), rng.randrange(2))),
        ("pw", 2, lambda: "pw %d %d" % (d(), d())),
        ("mul", 4, lambda: "mul %d %d" % (d(), rng.randrange(3))),
        ("tr", 3, lambda: "tr %d %d" % (d(), rng.randrange(2))),
        ("trb", 2, lambda: "trb %d %d" % (d(), rng.randrange(2))),
        ("mv", 3, lambda: "mv %d %d" % (d(), 0)),
    ]
    if M == N:
        table += [("sqm", 4, lambda: "sqm %d %d %d %d" % (d(), d(), d(), rng.randrange(3))),
                  ("sqip", 3, lambda: "sqip %d %d" % (d(), d()))]
    init = [ld(rng, inst, i, M, N) for i in range(3)] + [ld(rng, inst, 3, N, P), ld(rng, inst, 6, N, 1)]
    return behaviour(rng, inst, nops, weigh(table, weights), init, scale_k(rng, inst, 12))


def g_matsquare(rng, inst, nops, weights, oob=True, noconv=False):
    M = inst.par[0]
    T = inst.T
    d = lambda: rng.randrange(2)

    def ix():
        if oob and rng.random() < weights.get("oob", 0.05):
            return rng.choice([M, -1, M + 1, 99])
        return rng.randrange(M)

    def small():
        mode = rng.choice(["dense", "sym", "tri", "singular", "perm", "diag", "affine", "ortho", "dense", "dense"])
        m = mat(rng, M, M, T, mode)
        if rng.random() < 0.85:
            hi = 3 if M < 4 else 2
            m = [((x + hi) % (2 * hi + 1)) - hi if abs(x) > hi else x for x in m]
        if mode == "singular" and M > 1:
            i, j = rng.sample(range(M), 2)
            for c in range(M):
                m[i * M + c] = m[j * M + c]
        if mode == "sym":
            if rng.random() < 0.5:
                for i in range(M):
                    m[i * M + i] = abs(m[i * M + i]) + rng.randint(0, 4)
            for i in range(M):
                for j in range(i):
                    m[i * M + j] = m[j * M + i]
        if T in UNSIGNED:
            m = [abs(x) for x in m]
        return m

    def ldm():
        return "ld %d 1 %s" % (d(), " ".join(map(str, small())))

    def inv():
        s = d()
        m = small()
        tn = rng.choice([-1, -1, -1, 0, 0, 1, 2, 5, 100])
        return ["ld %d 1 %s" % (s, " ".join(map(str, m))), "inv %d %d %d %d" % (1 - s, s, tn, rng.randrange(2))]

    def two(op):
        def f():
            s = d()
            return "%s %d %d" % (op, 1 - s, s)
        return f
    fresh = lambda f: (lambda: [ldm(), f()] if rng.random() < 0.6 else f())
    table = [
        ("ld", 3, ldm), ("det", 5, fresh(lambda: "det %d %d" % (d(), rng.randrange(2)))),
        ("minor", 4, fresh(lambda: "minor %d %d %d" % (d(), ix(), ix()))),
        ("cof", 3, fresh(two("cof"))), ("adj", 3, fresh(two("adj"))), ("inv", 6, inv),
        ("posd", 3, fresh(lambda: "posd %d %d" % (d(), rng.randrange(2)))),
        ("diag", 1, lambda: [ld(rng, inst, 3, M, 1, q=1), "diag %d" % d()]),
        ("ident", 0.7, lambda: "ident %d %d" % (d(), rng.randrange(3))),
        ("scov", 1, fresh(two("scov"))),
    ]
    return behaviour(rng, inst, nops, weigh(table, weights), [ldm(), ldm()], scale_k(rng, inst, 6))


def g_matprod(rng, inst, nops, weights, oob=True, noconv=False):
    M, N, A, B = inst.par
    regs = [(0, M, N), (1, A, B), (3, A, N), (6, M, 1), (7, N, 1)]
    L = lambda i: ld(rng, inst, *regs[i], q=1)
    table = [
        ("kron", 3, lambda: [L(0), L(1), "kron"]), ("khat", 3, lambda: [L(0), L(2), "khat"]),
        ("dsum", 3, lambda: [L(1), "dsum"]), ("tens", 2, lambda: [L(3), L(4), "tens"]),
        ("cov", 2, lambda: [L(0), "cov"]), ("conv", 4, lambda: [L(0), L(1), "conv"]),
        ("srws", 2, lambda: [L(0), "srws"]), ("scls", 2, lambda: [L(0), "scls"]),
        ("csum", 2, lambda: [L(0), "csum"]), ("ld", 1, lambda: L(rng.randrange(5))),
        ("conv2", 1, lambda: "conv"),
    ]
    return behaviour(rng, inst, nops, weigh(table, weights), [L(i) for i in range(5)], scale_k(rng, inst, 6))


def g_matreduce(rng, inst, nops, weights, oob=True, noconv=False):
    M, N = inst.par
    T = inst.T
    L = lambda: ld(rng, inst, 0, M, N)
    th = lambda: rng.choice([0, 1, 2, 3, 5, 10]) if T in UNSIGNED else rng.choice([0, 1, 2, 3, 5, 10, 0])
    F = lambda f: (lambda: [L(), f()] if rng.random() < 0.6 else f())
    # multiples of the matrix, up to the limits of an integer type
    bits = {"int": 31, "short": 15, "unsigned short": 16, "signed char": 7, "unsigned char": 8}.get(T, 0)
    big = lambda: "" if not bits or rng.random() < 0.5 else " %d" % rng.choice([max(0, bits - 1 - rng.randrange(12)), bits - 4, bits // 2, 1])
    table = [("ld", 2, L)]
    for n, w in (("min", 3), ("max", 3), ("amin", 3), ("amax", 3), ("sum", 2), ("nnz", 2), ("frob", 2)):
        table.append((n, w, F(lambda n=n: n + " 0" + big())))
    table += [("nnzt", 2, F(lambda: "nnzt 0 %d" % th())), ("thr", 2, F(lambda: "thr 0 %d" % th())),
              ("pnorh", 0.7, lambda: ["ld 0 1 " + " ".join(str(rng.choice([0, 1, 2, 3] + ([] if T in UNSIGNED else [-1, -2, -3]))) for _ in range(M * N)),
                                      "pnor 0 %d" % rng.choice([5, 6, 7, 8, 10])]),
              ("pnor", 2, F(lambda: "pnor 0 %d" % rng.choice([1, 2, 3, 4]) + big()))]
    return behaviour(rng, inst, nops, weigh(table, weights), [L()], scale_k(rng, inst, 5))


def g_matconv(rng, inst, nops, weights, oob=True, noconv=False):
    M, N, P, Q = inst.par
    T = inst.T
    U = inst.attr["U"]
    sh = [(M, N), (P, Q), (M, N)]
    tt = joint(T, U)

    def L():
        r = rng.randrange(3)
        return "ld %d 1 %s" % (r, " ".join(map(str, mat(rng, *sh[r], tt))))

    def arr():
        r = rng.randrange(3)
        return "arr %d %d %s" % (r, rng.randrange(2), " ".join(map(str, mat(rng, *sh[r], tt))))

    def cvt():
        a, b = rng.choice([(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)])
        return [L(), "cvt %d %d %d" % (a, b, rng.randrange(2))]
    table = [("ld", 2, L), ("cvt", 6, cvt), ("arr", 3, arr),
             ("cast", 2, lambda: "cast %d %d" % rng.choice([(0, 2), (2, 0)])),
             ("dflt", 1, lambda: "dflt %d" % rng.randrange(3)), ("zer", 0.5, lambda: "zer %d" % rng.randrange(3))]
    return behaviour(rng, inst, nops, weigh(table, weights), [L(), L()], 0)


def I_matstore(M, N, A, B, T):
    return Inst("MatStore<%d,%d,%d,%d,%s>" % (M, N, A, B, T), "matstore", [M, N, A, B], "mat.hpp", g_matstore, T)


def I_matarith(M, N, P, T):
    return Inst("MatArith<%d,%d,%d,%s>" % (M, N, P, T), "matarith", [M, N, P], "mat.hpp", g_matarith, T)


def I_matsquare(M, T):
    return Inst("MatSquare<%d,%s>" % (M, T), "matsquare", [M], "mat.hpp", g_matsquare, T)


def I_matprod(M, N, A, B, T):
    return Inst("MatProd<%d,%d,%d,%d,%s>" % (M, N, A, B, T), "matprod", [M, N, A, B], "mat.hpp", g_matprod, T)


def I_matreduce(M, N, T):
    return Inst("MatReduce<%d,%d,%s>" % (M, N, T), "matreduce", [M, N], "mat.hpp", g_matreduce, T)


def I_matconv(M, N, T, P, Q, U):
    return Inst("MatConv<%d,%d,%s,%d,%d,%s>" % (M, N, T, P, Q, U), "matconv", [M, N, P, Q], "mat.hpp", g_matconv, T, U=U)
