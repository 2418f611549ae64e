"""The profile of every property: machines, weights, configurations."""
import random

from .gen import *
from .genmisc import *
from .mc import MCS


class Profile:
    def __init__(self, insts, weights=None, nbeh=(40, 400), nops=40, configs=lambda rng, tier: ("debug",) if tier == "quick" else ("debug", "o2", "asan"), mc=(), assumptions=()):
        """insts(rng) -> [(weight, Inst)]; weights: {kind: {op: weight}}"""
        self.insts, self.weights, self.nbeh, self.nops = insts, weights or {}, nbeh, nops
        self.configs, self.mc = configs, mc
        self.assumptions = list(assumptions) or [
            "numbers are compared after projection to exact rationals; inputs are chosen so that the exact result is "
            "far from every rounding boundary",
            "quantification over inputs is sampled (seeded), except for the exhaustively enumerated model"]

    def run(self, r):
        rng = random.Random("%s/%d/%s" % (r.pid, r.seed, r.tier))
        insts = self.insts(rng, r.tier)
        r.insts = {i.key: i for _, i in insts}
        from .run import config
        batches = []
        n = {"P12": 1, "P28": 1, "P27": 3, "P29": 2, "P02": 8, "P08": 12, "P26": 7, "P23": 9}.get(r.pid, 15) * self.nbeh[0] if r.tier == "quick" else self.nbeh[1]
        configs = self.configs(rng, r.tier) if callable(self.configs) else self.configs
        # the laws of the machines, on behaviours that are replayed below
        mcs = [MCS[m] for m in self.mc]
        found = [r.mcpool.submit(m.explore, r) for m in mcs]
        extra = [i for m in mcs for x in m.insts().values() for i in x]
        r.insts.update((i.key, i) for i in extra)
        plain = [c for c in configs if not {"oob", "noconv"} & set(config(c)[1])]
        compiled = r.pool0.submit(r.compile_all, [(c, [i for _, i in insts] + (extra if c in plain else [])) for c in configs])
        for cfg in configs:
            opts = {k: v for k, v in config(cfg)[1].items() if k != "cxx"}
            bs = []
            tot = sum(w for w, _ in insts)
            for w, i in insts:
                for _ in range(max(1, round(n * w / tot / len(configs)))):
                    bs.append(i.genf(rng, i, self.nops, self.weights.get(i.kind, {}), **opts))
            rng.shuffle(bs)
            batches.append((cfg, bs))
        compiled.result()
        r.run_batches(batches)
        for m, f in zip(mcs, found):
            bs = {}
            for x, (i, lines) in enumerate(m.behaviours(r, f.result(), random.Random("%s/%s/%d" % (m.module, m.mode, r.seed)))):
                bs.setdefault("v" + ".".join(lines[0].split()[-3:]) if i.kind == "version" else plain[x % len(plain)], []).append(lines)
            done = r.stats["behaviours"]
            r.run_batches(sorted(bs.items()))
            r.stats["replayed"] += r.stats["behaviours"] - done


PROPS = {}


def shapes(rng, n, lo=1, hi=6, fixed=()):
    s = list(fixed)
    while len(s) < n:
        x = (rng.randint(lo, hi), rng.randint(lo, hi))
        if x not in s:
            s.append(x)
    return s


def sub(rng, M, N):
    return rng.randint(1, M), rng.randint(1, N)


def store_insts(rng, tier):
    o = [(4, 4, "float"), (3, 3, "double"), (2, 5, "float"), (4, 3, "int"), (3, 4, "double"), (5, 2, "double"), (2, 3, "int"),
         (4, 1, "float"), (1, 3, "int64_t"), (9, 7, "float")]
    o = [(2 if M * N < 30 else 1, I_matstore(M, N, *sub(rng, M, N), T)) for M, N, T in o]
    for _ in range(6 if tier == "quick" else 24):
        M, N = rng.choice([(rng.randint(1, 6), rng.randint(1, 6)), (rng.randint(1, 6), rng.randint(1, 6)), (rng.randint(1, 12), rng.randint(1, 12))])
        T = rng.choice(["float", "double", "int", "unsigned char", "short", "size_t", "int64_t", "long double", "signed char", "unsigned int", "unsigned short"])
        o.append((1, I_matstore(M, N, *sub(rng, M, N), T)))
    # more rows or columns than a byte counts
    return o + [(0.15, I_matstore(M, N, *sub(rng, M, N), T)) for M, N, T in ((259, 1, "float"), (2, 260, "int"), (1, 258, "double"), (18, 16, "short"))]


def arith_insts(rng, tier):
    o = [(4, 4, 4, "float"), (3, 3, 1, "double"), (2, 3, 4, "int"), (2, 2, 2, "short"), (5, 5, 3, "float"), (3, 2, 2, "double"), (1, 4, 3, "float"),
         (3, 3, 3, "int"), (4, 1, 2, "double"), (4, 4, 3, "double"), (2, 2, 5, "int64_t"), (8, 8, 2, "double"), (9, 6, 5, "float")]
    o = [(2 if M == N else 1, I_matarith(M, N, P, T)) for M, N, P, T in o]
    for _ in range(3 if tier == "quick" else 20):
        M, N = rng.choice([(rng.randint(1, 6),) * 2, (rng.randint(1, 6), rng.randint(1, 6))])
        o.append((1, I_matarith(M, N, rng.choice([M, N, rng.randint(1, 5)]), rng.choice(["float", "double", "int", "short", "int64_t", "long double"]))))
    return o + [(0.15, I_matarith(M, N, P, T)) for M, N, P, T in ((260, 1, 2, "float"), (2, 259, 1, "double"), (1, 2, 258, "int"), (17, 17, 2, "float"))]


PROPS["P01"] = Profile(store_insts, {"matstore": {"oob": 0}}, nbeh=(300, 2500), nops=60)
PROPS["P02"] = Profile(lambda rng, tier: store_insts(rng, tier) + [(1, i) for i in (
    I_vecview(3, 2, "float", "int"), I_vecview(4, 2, "int", "short"), I_matsquare(3, "float"), I_matsquare(4, "double"),
    I_culler("float"), I_quant(3, 2, "float", "unsigned char"), I_matprod(3, 5, 2, 3, "double"), I_matconv(3, 2, "float", 2, 4, "int"))],
                       {"matstore": {"oob": 0.4}, "vecview": {"oob": 0.4}, "matsquare": {"oob": 0.4}}, nbeh=(240, 2500), nops=50,
                       configs=("debug", "asan"))
PROPS["P03"] = Profile(arith_insts, {}, nbeh=(300, 2500), nops=60)
PROPS["P04"] = Profile(lambda rng, tier: [(1, I_matsquare(m, t)) for m, t in
                       ((2, "float"), (3, "float"), (4, "double"), (5, "double"), (3, "int"), (4, "float"), (2, "double"), (4, "int"), (5, "float"),
                        (2, "int"), (3, "double"), (5, "int"), (1, "double"), (6, "float"), (3, "long double"), (4, "int64_t"))],
                       {"matsquare": {"inv": 0, "posd": 0}}, nbeh=(300, 2500), nops=60)
PROPS["P05"] = Profile(lambda rng, tier: [(1, I_matsquare(m, t)) for m, t in
                       ((2, "float"), (3, "float"), (4, "double"), (4, "float"), (2, "double"), (3, "double"), (4, "long double"), (1, "float"), (5, "double"))],
                       {"matsquare": {"*": 0.2, "inv": 10, "posd": 3}}, nbeh=(300, 2500), nops=60)
PROPS["P08"] = Profile(lambda rng, tier: [(1, I_matprod(M, N, A, B, t)) for M, N, A, B, t in
                       ((3, 3, 2, 2, "float"), (2, 4, 3, 2, "double"), (4, 2, 1, 3, "int"), (5, 4, 3, 3, "float"), (3, 5, 2, 3, "double"), (4, 4, 3, 1, "float"),
                        (2, 2, 3, 3, "int"), (6, 3, 2, 4, "double"), (1, 3, 2, 2, "float"), (3, 1, 3, 2, "double"), (5, 5, 5, 5, "float"), (4, 6, 2, 2, "short"),
                        (7, 2, 4, 1, "double"), (3, 3, 4, 3, "int64_t"), (3, 9, 2, 1, "float"))] +
                       [(0.2, I_matprod(M, N, A, B, t)) for M, N, A, B, t in ((10, 3, 3, 2, "double"), (2, 33, 2, 1, "double"), (34, 2, 1, 2, "float"), (3, 12, 2, 2, "int"))] +
                       [(0.4, I_utens(t)) for t in ("float", "double", "int")],
                       {}, nbeh=(300, 2500), nops=30)
PROPS["P09"] = Profile(lambda rng, tier: [(1, I_matreduce(M, N, t)) for (M, N), t in
                       zip(shapes(rng, 16, 1, 7, [(4, 4), (3, 3), (2, 3), (3, 1), (1, 4), (1, 1)]),
                           ("float", "double", "int", "short", "float", "double", "unsigned char", "long double", "int", "double", "float",
                            "signed char", "float", "double", "short", "int"))] + [(0.15, I_matreduce(M, N, t)) for M, N, t in ((258, 1, "float"), (2, 257, "double"), (16, 17, "int"))],
                       {}, nbeh=(300, 2500), nops=40)
PROPS["P10"] = Profile(lambda rng, tier: [(1, I_matconv(M, N, t, P, Q, u)) for M, N, t, P, Q, u in
                       ((3, 2, "float", 2, 4, "int"), (4, 4, "float", 3, 3, "double"), (3, 3, "double", 4, 4, "float"),
                        (2, 2, "int", 5, 3, "short"), (4, 3, "double", 4, 4, "unsigned char"), (1, 4, "float", 4, 1, "float"),
                        (5, 5, "float", 2, 2, "double"), (2, 3, "float", 3, 2, "float"), (4, 4, "double", 4, 2, "float"), (3, 4, "int", 4, 4, "float"),
                        (2, 6, "short", 6, 2, "int64_t"), (3, 3, "float", 3, 4, "long double"), (7, 5, "double", 5, 8, "int"))] + [(0.15, I_matconv(M, N, t, P, Q, u)) for M, N, t, P, Q, u in ((258, 2, "float", 260, 1, "int"), (1, 261, "double", 2, 257, "float"))],
                       {}, nbeh=(300, 2500), nops=40)

PROPS["P13"] = Profile(lambda rng, tier: [(1, I_vecarith(M, t)) for M, t in
                       ((3, "float"), (3, "double"), (4, "float"), (2, "int"), (3, "int"), (rng.choice([1, 5, 6]), "double"), (4, "unsigned char"), (4, "short"),
                        (2, "float"), (2, "double"), (4, "double"), (4, "int"), (5, "float"), (7, "int"), (3, "int64_t"), (1, "float"), (3, "long double"), (9, "double"))] + [(0.15, I_vecarith(M, t)) for M, t in ((259, "float"), (33, "int"))],
                       {}, nbeh=(300, 2500), nops=50)
PROPS["P14"] = Profile(lambda rng, tier: [(2 if M == 3 else 1, I_vecgeom(M, t)) for M, t in
                       ((3, "float"), (3, "double"), (4, "float"), (2, "double"), (rng.choice([1, 5, 6]), "float"),
                        (4, "double"), (2, "float"), (5, "double"), (3, "long double"), (1, "double"), (8, "float"))] +
                       [(0.3, I_vecsearch(M, t, u)) for M, t, u in ((3, "int", "short"), (2, "int", "unsigned char"), (3, "unsigned char", "short"), (4, "double", "short"))],
                       {"vecsearch": {"*": 0.05, "ld": 1, "l2": 6}}, nbeh=(300, 2500), nops=40)
PROPS["P15"] = Profile(lambda rng, tier: [(1, I_vecsearch(M, t, u)) for M, t, u in
                       ((3, "float", "unsigned char"), (4, "double", "short"), (2, "float", "signed char"), (4, "int", "short"),
                        (5, "double", "unsigned char"), (3, "unsigned char", "short"), (rng.choice([1, 6, 4]), "float", "unsigned short"),
                        (2, "double", "unsigned char"), (4, "float", "unsigned char"), (3, "double", "short"), (2, "int", "unsigned char"), (3, "int", "short"),
                        (5, "float", "signed char"), (3, "short", "unsigned char"), (8, "double", "short"), (7, "float", "unsigned char"),
                        (3, "unsigned int", "short"), (2, "size_t", "unsigned char"), (4, "int64_t", "short"))] + [(0.15, I_vecsearch(M, t, u)) for M, t, u in ((258, "float", "unsigned char"), (31, "double", "short"))],
                       {}, nbeh=(300, 2500), nops=40)
PROPS["P16"] = Profile(lambda rng, tier: [(1, I_vecview(M, n, t, u)) for M, n, t, u in
                       ((3, 2, "float", "int"), (4, 3, "double", "float"), (2, 1, "float", "double"), (4, 2, "int", "short"),
                        (5, 3, "float", "unsigned char"), (3, 3, "int", "float"), (4, 4, "float", "int"),
                        (3, 2, "double", "float"), (2, 2, "double", "int"), (4, 1, "unsigned char", "float"), (3, 1, "short", "double"), (6, 2, "double", "float"),
                        (2, 1, "int64_t", "int"), (8, 5, "float", "double"))] + [(0.15, I_vecview(M, n, t, u)) for M, n, t, u in ((262, 257, "float", "int"), (20, 17, "double", "float"))],
                       {"vecview": {"oob": 0}}, nbeh=(300, 2500), nops=50)
PROPS["P17"] = Profile(lambda rng, tier: [(1, I_vecplane(t)) for t in ("float", "double")],
                       {}, nbeh=(220, 2500), nops=40)

PROPS["P06"] = Profile(lambda rng, tier: [(2 if M == N else 1, I_matvec(M, N, t)) for M, N, t in
                       ((4, 4, "float"), (4, 4, "double"), (3, 3, "double"), (2, 3, "float"), (4, 2, "int"), (3, 3, "int"),
                        (rng.choice([2, 5]), 5, "float"), (2, 2, "float"), (3, 3, "float"), (5, 5, "double"), (1, 3, "double"), (3, 1, "float"), (4, 4, "int"),
                        (6, 4, "double"), (3, 4, "float"), (4, 3, "double"), (4, 4, "long double"))] + [(0.15, I_matvec(M, N, t)) for M, N, t in ((258, 1, "float"), (2, 259, "double"), (17, 17, "float"))],
                       {}, nbeh=(300, 2500), nops=50)
PROPS["P07"] = Profile(lambda rng, tier: [(1, I_affine(t)) for t in ("float", "double")] + [(0.15, I_matvec(M, N, t)) for M, N, t in
                       ((4, 4, "double"), (3, 3, "float"), (5, 4, "float"), (3, 4, "double"), (4, 3, "int"), (6, 6, "double"))],
                       {"matvec": {"*": 0.1, "ld": 3, "gtr": 6}}, nbeh=(380, 2800), nops=50)
ALG = ("add", "sub", "mul", "addip", "subip", "mulip", "muls", "divs", "neg", "conj", "inv", "cp", "zero", "named", "set",
       "addv", "subv", "mulv", "fromv", "cross", "dot", "sqabs", "abs", "eq", "eqs", "near", "find", "nan")
CONV = ("tom", "frm", "mv")
INTERP = ("norm", "rot", "rax", "slrp", "slin", "slend")
QI = lambda rng, tier: [(1, I_quat(t)) for t in ("float", "double")]
off = lambda *gs: {o: 0 for g in gs for o in g}
PROPS["P18"] = Profile(QI, {"quat": dict(off(CONV, INTERP), norm=1.5, normw=1)}, nbeh=(320, 2500), nops=60)
PROPS["P19"] = Profile(QI, {"quat": dict(off(INTERP), **{"*": 0.3, "tom": 5, "frm": 8, "mv": 4})}, nbeh=(320, 2500), nops=50)
PROPS["P20"] = Profile(QI, {"quat": dict(off(CONV), **{"*": 0.3, "norm": 4, "normw": 2, "rot": 4, "rax": 4, "slrp": 8, "slin": 5, "slend": 5})}, nbeh=(320, 2500), nops=50)

PROPS["P21"] = Profile(lambda rng, tier: [(1, I_aabb(t)) for t in ("float", "double", "int", "short", "int64_t", "unsigned int")], {}, nbeh=(320, 2500), nops=50)
PROPS["P22"] = Profile(lambda rng, tier: [(1, I_frustum(t)) for t in ("float", "double")], {}, nbeh=(320, 2500), nops=40)
PROPS["P23"] = Profile(lambda rng, tier: [(1, I_culler(t)) for t in ("float", "double")], {}, nbeh=(320, 2500), nops=50)
PROPS["P24"] = Profile(lambda rng, tier: [(1, I_ray(t)) for t in ("float", "double")], {}, nbeh=(320, 2500), nops=25)

PROPS["P11"] = Profile(lambda rng, tier: [(1, I_quant(M, N, t, u)) for M, N, t, u in
                       ((3, 3, "float", "unsigned char"), (4, 2, "float", "signed char"), (2, 3, "double", "unsigned short"),
                        (3, 3, "double", "short"), (1, 5, "double", "unsigned char"), (4, 4, "float", "short"),
                        (3, 2, "float", "unsigned short"), (2, 2, "double", "signed char"), (5, 3, "float", "unsigned char"), (6, 1, "double", "short"))] + [(0.6, I_quant(M, N, t, u)) for M, N, t, u in ((3, 2, "int", "unsigned char"), (2, 3, "unsigned int", "signed char"), (2, 2, "short", "unsigned short"), (1, 4, "int", "short"), (3, 3, "int", "char"))] + [(0.15, I_quant(M, N, t, u)) for M, N, t, u in ((258, 1, "float", "unsigned char"), (1, 257, "double", "short"))] +
                       [(1, I_quantw(M, N, u)) for M, N, u in ((2, 3, "int"), (4, 1, "unsigned int"), (1, 3, "int"), (3, 2, "unsigned int"))],
                       {}, nbeh=(300, 2500), nops=25)
PROPS["P12"] = Profile(lambda rng, tier: [(1, I_stream(M, N, P, t)) for M, N, P, t in
                       ((3, 3, 3, "float"), (2, 4, 4, "double"), (3, 1, 2, "int"), (4, 4, 4, "double"), (1, 5, 3, "float"), (3, 4, 4, "short"), (5, 2, 1, "double"), (2, 2, 5, "int64_t"), (6, 6, 6, "float"))] + [(0.15, I_stream(M, N, P, t)) for M, N, P, t in ((258, 1, 2, "float"), (2, 257, 3, "double"))],
                       {}, nbeh=(300, 2500), nops=25)
PROPS["P25"] = Profile(lambda rng, tier: [(1, I_lowpass(w, v, t, n)) for w, v, t, n in
                       ((3, "float", "float", 1), (5, "double", "double", 1), (2, "Vector<3,float>", "float", 3),
                        (4, "Vector<3,double>", "double", 3), (1, "float", "float", 1),
                        (7, "double", "double", 1), (3, "Vector<2,float>", "float", 2), (10, "float", "float", 1), (6, "Vector<4,double>", "double", 4))],
                       {}, nbeh=(300, 2500), nops=50)
PROPS["P26"] = Profile(lambda rng, tier: [(1, I_qr(M, N, t)) for M, N, t in
                       ((2, 2, "float"), (3, 3, "float"), (3, 3, "double"), (4, 4, "double"), (4, 3, "double"), (3, 2, "float"), (5, 3, "double"), (4, 4, "float"), (5, 5, "double"),
                        (2, 2, "double"), (6, 2, "double"), (4, 2, "float"), (3, 1, "double"))],
                       {}, nbeh=(300, 2500), nops=25)
PROPS["P28"] = Profile(lambda rng, tier: [(1, I_filler(M, N, P, t)) for M, N, P, t in
                       ((4, 4, 3, "float"), (3, 5, 4, "double"), (8, 8, 2, "double"), (5, 3, 6, "float"), (2, 4, 9, "double"), (1, 1, 1, "float"), (6, 6, 5, "double"),
                        (2, 2, 2, "float"), (7, 4, 3, "float"), (9, 9, 4, "float"), (4, 8, 7, "double"))] + [(0.15, I_filler(M, N, P, t)) for M, N, P, t in ((18, 3, 19, "double"), (20, 2, 17, "float"))],
                       {}, nbeh=(300, 2500), nops=10)


def version_configs(rng, tier):
    from .run import versions
    v = versions()
    o = {"v%s.%s.%s" % (v["MAJOR"], v["MINOR"], v["PATCH"]), "v0.0.0", "v1.9.2", "v2.99.99"}
    for _ in range(3 if tier == "quick" else 12):
        o.add("v%d.%d.%d" % (rng.randint(0, 3), rng.choice([0, 1, 8, 9, 10, 99]), rng.randint(0, 12)))
    o.add("v%d.%d.%d" % (rng.choice([1, 2, 20]), rng.choice([100, 127, 128, 255, 256, 1000]), rng.choice([99, 100, 150, 255, 256, 65536])))
    return sorted(o)


PROPS["P29"] = Profile(lambda rng, tier: [(1, I_version())], {}, nbeh=(60, 600), nops=60, configs=version_configs)

PROPS["P30"] = Profile(lambda rng, tier: [(1, I_util(P, t)) for P, t in ((3, "float"), (4, "double"), (2, "double"), (5, "float"), (3, "int"), (1, "double"), (4, "short"), (7, "double"), (2, "int"))] + [(0.15, I_util(P, t)) for P, t in ((258, "float"), (19, "double"))],
                       {}, nbeh=(300, 2500), nops=50)

PROPS["P27"] = Profile(lambda rng, tier: [(1, i) for i in (
    I_matstore(4, 4, 2, 3, "float"), I_matstore(3, 2, 2, 1, "int"), I_matarith(3, 3, 2, "float"), I_matsquare(3, "double"),
    I_matreduce(3, 4, "float"), I_matvec(4, 4, "float"), I_affine("float"), I_vecarith(3, "float"), I_vecarith(2, "int"), I_vecgeom(3, "double"),
    I_vecview(4, 2, "float", "int"), I_vecsearch(4, "float", "unsigned char"), I_quat("float"), I_aabb("float"), I_frustum("float"),
    I_culler("double"), I_ray("float"), I_lowpass(3, "float", "float", 1),
    I_matprod(3, 3, 2, 2, "float"), I_matconv(3, 2, "float", 2, 4, "int"), I_quant(3, 2, "float", "unsigned char"), I_stream(2, 3, 4, "double"),
    I_filler(4, 4, 3, "float"), I_qr(4, 3, "double"), I_util(3, "float"), I_vecplane("double"))],
    {}, nbeh=(900, 6000), nops=40,
    configs=lambda rng, tier: ("debug", "o2", "ndebug", "noconv", "safe", "unsafe", "clang", "cxx17") + (("native",) if tier != "quick" else ()))


for p_, ms_ in {
    "P01": ("store",),
    "P02": ("store", "vview",),
    "P03": ("arith",),
    "P04": ("det",),
    "P05": ("inv",),
    "P06": ("matvec",),
    "P07": ("affine",),
    "P08": ("prod",),
    "P09": ("reduce",),
    "P10": ("conv",),
    "P11": ("quant", "quantw"),
    "P12": ("stream",),
    "P13": ("varith",),
    "P14": ("vgeom",),
    "P15": ("vsearch",),
    "P16": ("vview",),
    "P17": ("vplane",),
    "P18": ("qalg",),
    "P19": ("qconv",),
    "P20": ("qinterp",),
    "P21": ("aabb",),
    "P22": ("frustum",),
    "P23": ("culler",),
    "P24": ("ray",),
    "P25": ("lowpass",),
    "P26": ("qr",),
    "P27": ("arith", "varith", "qalg", "affine",),
    "P28": ("filler",),
    "P29": ("version",),
    "P30": ("util",),
}.items():
    PROPS[p_].mc = ms_
