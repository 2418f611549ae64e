"""Model checking of the machines' laws; the behaviours explored are replayed.

Each module spec/MC*.tla enumerates behaviours of one machine and checks the
laws the machine obeys.  TLC prints every complete behaviour; they are run on
the real code and the traces validated like the random ones.
"""
import json
import random

from .gen import *
from .genmisc import *

KMAX = {"matstore": 10, "matarith": 12, "matsquare": 6, "matprod": 6, "matreduce": 5, "vecarith": 12, "vecgeom": 8,
        "aabb": 20, "culler": 10, "ray": 14, "quant": 15, "quantw": 15, "lowpass": 15, "qr": 20, "vecplane": 15, "frustum": 12, "affine": 12, "matvec": 6}
FD = ("float", "double")


def over(Ts, make, *pars):
    """{parameters in the specification: instances}"""
    return {tuple(p): [make(*p, T) for T in Ts] for p in pars}


class MC:
    def __init__(self, module, insts, mode="", anypar=False, quick=1200, thorough=40000, mem="3g"):
        """insts(): {par: [Inst]}"""
        self.module, self.insts, self.mode, self.anypar = module, insts, mode, anypar
        self.cap = (quick, thorough)
        self.mem = mem

    def explore(self, r):
        env = {"VMMODE": self.mode, "VMBIG": "0" if r.tier == "quick" else "1"}
        return r.model_check(self.module, "MC.cfg", env, export=True, workers=4, mem=self.mem,
                             timeout=500 if r.tier == "quick" else 6000)

    def behaviours(self, r, found, rng):
        """[(par, lines)], as many as the tier allows, each command sequence equally often"""
        insts = self.insts()
        groups = {}
        for b in found:
            p = tuple(b["par"])
            if self.anypar:
                p = next(iter(insts))
            if p not in insts:
                continue
            sig = (p, tuple((c["op"], tuple(c["a"]) if c["op"] != "ld" else ()) for c in b["cmds"]))
            groups.setdefault(sig, []).append(b)
        order = sorted(groups)
        rng.shuffle(order)
        for g in order:
            groups[g].sort(key=lambda b: json.dumps(b, sort_keys=True))
            rng.shuffle(groups[g])
        cap = self.cap[0 if r.tier == "quick" else 1]
        out, seen = [], set()
        while order and len(out) < cap:
            rest = []
            for g in order:
                if len(out) >= cap:
                    break
                b = groups[g].pop()
                if groups[g]:
                    rest.append(g)
                lines = [J("ld", x[0], x[1], *x[2:]) for x in b["ld"]] + [J(c["op"], *c["a"]) for c in b["cmds"]]
                for inst in (insts[g[0]] if r.tier != "quick" else [rng.choice(insts[g[0]])]):
                    k = scale_k(rng, inst, KMAX[inst.kind]) if inst.kind in KMAX else 0
                    x = [inst.start(k) + (" " + " ".join(map(str, b["par"])) if inst.kind == "version" else "")] + lines
                    if tuple(x) not in seen:
                        seen.add(tuple(x))
                        out.append((inst, x))
            order = rest
        return out


MCS = {
    "store": MC("MCStore", lambda: over(FD + ("int",), I_matstore, (2, 3, 1, 2), (3, 2, 2, 1), (1, 4, 1, 3))),
    "arith": MC("MCArith", lambda: over(FD, I_matarith, (2, 2, 3), (2, 3, 2), (3, 3, 1), (1, 4, 2))),
    "det": MC("MCSquare", lambda: over(FD, I_matsquare, (2,), (3,), (4,), (5,)), "det"),
    "inv": MC("MCSquare", lambda: over(FD, I_matsquare, (2,), (3,), (4,), (5,)), "inv"),
    "prod": MC("MCProd", lambda: over(FD, I_matprod, (3, 3, 2, 2), (2, 4, 3, 2), (4, 2, 1, 3), (3, 5, 2, 3), (4, 4, 3, 3))),
    "reduce": MC("MCReduce", lambda: over(FD, I_matreduce, (2, 2), (1, 3), (3, 2), (1, 1))),
    "conv": MC("MCConv", lambda: {(M, N, P, Q): [I_matconv(M, N, t, P, Q, u) for t, u in (("float", "double"), ("double", "float"), ("float", "int"))]
                                  for M, N, P, Q in ((3, 2, 2, 4), (3, 3, 4, 4), (2, 2, 5, 3), (1, 4, 4, 1))}),
    "varith": MC("MCVArith", lambda: {(M, i): [I_vecarith(M, t) for t in (FD if i == 0 else ("int", "short"))]
                                      for M, i in ((3, 0), (4, 0), (2, 1), (3, 1), (5, 0))}),
    "vgeom": MC("MCVGeom", lambda: over(FD, I_vecgeom, (2,), (3,), (4,))),
    "vsearch": MC("MCVSearch", lambda: {(M,): [I_vecsearch(M, "float", "unsigned char"), I_vecsearch(M, "double", "short")] for M in range(2, 6)}),
    "vview": MC("MCVView", lambda: {(M, n): [I_vecview(M, n, "float", "int"), I_vecview(M, n, "double", "float")]
                                    for M, n in ((3, 2), (4, 3), (2, 1), (4, 2), (4, 4), (5, 3))}),
    "vplane": MC("MCVPlane", lambda: {(4,): [I_vecplane(t) for t in FD]}),
    "affine": MC("MCAffine", lambda: {(4,): [I_affine(t) for t in FD]}),
    "matvec": MC("MCMatVec", lambda: over(FD, I_matvec, (4, 4), (3, 3), (2, 3), (4, 2), (5, 5))),
    "qalg": MC("MCQuat", lambda: {(4,): [I_quat(t) for t in FD]}, "alg"),
    "qconv": MC("MCQuat", lambda: {(4,): [I_quat(t) for t in FD]}, "conv"),
    "qinterp": MC("MCQuat", lambda: {(4,): [I_quat(t) for t in FD]}, "interp"),
    "aabb": MC("MCAabb", lambda: {(3,): [I_aabb(t) for t in FD + ("int",)]}),
    "frustum": MC("MCFrustum", lambda: {(4,): [I_frustum(t) for t in FD]}),
    "culler": MC("MCCuller", lambda: {(0,): [I_culler(t) for t in FD]}, anypar=True),
    "ray": MC("MCRay", lambda: {(0,): [I_ray(t) for t in FD]}, anypar=True),
    "quant": MC("MCQuant", lambda: {(3, 1) + ITYPES[i] + (n,): [I_quant(3, 1, t, i) for t in (("int",) if n else ("float", "double") if "char" in i else ("double",))]
                                    for i in ("unsigned char", "signed char", "unsigned short", "short") for n in (0, 1) if n == 0 or i != "short"}),
    "quantw": MC("MCQuantW", lambda: {(3, 1, 1): [I_quantw(3, 1, "int")], (3, 1, 0): [I_quantw(3, 1, "unsigned int")]}),
    "stream": MC("MCStream", lambda: {(2, 2, 3, 1): [I_stream(2, 2, 3, t) for t in FD], (3, 1, 2, 0): [I_stream(3, 1, 2, "int")]}),
    "lowpass": MC("MCLowpass", lambda: {(3, 1): [I_lowpass(3, t, t, 1) for t in FD], (2, 3): [I_lowpass(2, "Vector<3,%s>" % t, t, 3) for t in FD],
                                        (1, 1): [I_lowpass(1, t, t, 1) for t in FD]}),
    "qr": MC("MCQr", lambda: over(FD, I_qr, (2, 2), (3, 3), (3, 2))),
    "util": MC("MCUtil", lambda: {(P,): [I_util(P, t) for t in FD] for P in (2, 3)}),
    "filler": MC("MCFiller", lambda: {}),
    "version": MC("MCVersion", lambda: {(1, 9, 2): [I_version()], (0, 0, 0): [I_version()], (2, 99, 99): [I_version()]}),
}
