"""bin/replay FILE: run the behaviour of a replay file again."""
import sys
from . import run, gen


def main(path):
    lines, heads = [], []
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("#!"):
            heads.append([x.strip() for x in l[2:].split("|")])
        elif l.strip() and not l.startswith("#"):
            lines.append(l)
    if not heads:
        print(open(path).read())
        return 1
    cfg = heads[0][0]
    r = run.Runner("replay", 1, "quick")
    try:
        insts = []
        for _, key, header, cpp in heads:
            i = gen.Inst(cpp, "x", [], header, None)
            i.key = key
            insts.append(i)
        r.compile_all([(cfg, insts)])
        c = r.confirm(cfg, lines, "replay")
        print(open(r.dir + "/replay.ndjson").read())
        print("REPRODUCED: %s" % (c,) if c else "not reproduced: the trace is accepted")
        return 1 if c else 0
    finally:
        r.close()
