"""bin/check PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse
import json
import os
import random
import sys
import time
import traceback

from . import props, run


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    o = ap.parse_args(argv)
    tier = o.tier if o.tier in ("quick", "thorough") else "quick"
    prof = props.PROPS[o.property]
    t0 = time.time()
    r = run.Runner(o.property, o.seed, tier)
    rc, viol = 0, 0
    try:
        try:
            prof.run(r)
            if r.stats["inconclusive"] * 50 > r.stats["behaviours"] + 50:
                raise run.CheckError("%d inconclusive behaviours" % r.stats["inconclusive"])
        except run.Violation as v:
            viol = 1
            rc = 1
            print("violation: " + v.what[:1500])
            print("VIOLATION property=%s replay=%s" % (o.property, v.replay))
        s = r.stats
        ev = {
            "property": o.property, "tier": tier, "seed": o.seed, "level": "model_checking",
            "coverage": {
                "states": s["states"] + s["mc_states"], "transitions": s["transitions"] + s["mc_transitions"],
                "traces_validated_against_impl": s["behaviours"],
                "trace_events": s["events"], "tlc_trace_runs": s["traces"],
                "exhaustive_model_states": s["mc_states"], "exhaustive_model_transitions": s["mc_transitions"],
                "model_transitions_replayed": s["replayed"], "inconclusive_behaviours": s["inconclusive"],
                "actions": dict(sorted(r.ops.items())), "samples": r.samples or ["none: stopped before the first trace was validated"],
            },
            "assumptions": prof.assumptions,
            "wall_s": round(time.time() - t0, 1), "violations": viol,
        }
        p = os.path.join(run.VERIF, "evidence", o.property + ".json")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %s, %d behaviours, %d events, %d model states, %.1f s" % (
            o.property, tier, o.seed, "VIOLATED" if rc else "held", s["behaviours"], s["events"], s["mc_states"], time.time() - t0))
        return rc
    except run.CheckError as e:
        print("ERROR %s: %s" % (o.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        r.close()
