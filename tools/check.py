#!/usr/bin/env python3
"""check.py <property id>: run one check.  VERIF_TIER and VERIF_SEED apply."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import registry


def write_evidence(ctx, level, verdict):
    cov = {
        "states": ctx.mc_states + ctx.tv_states,
        "transitions": ctx.mc_transitions + ctx.tv_transitions,
        "traces_validated_against_impl": ctx.cases,
        "samples": ctx.samples or [{"note": "no log was accepted in this run"}],
        "model_states": ctx.mc_states,
        "model_transitions": ctx.mc_transitions,
        "implementation_events_validated": ctx.events,
        "verdict": verdict,
    }
    cov.update(ctx.notes)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
          "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(core.VERIF, "evidence", ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def save_replay(ctx, v):
    d = os.path.join(core.VERIF, "replays", "%s-%s-seed%d" % (
        ctx.prop, ctx.tier, ctx.seed))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "WHAT.txt"), "w") as f:
        f.write(v.what + "\n")
    for name, data in v.files.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(data)
    return d


def main():
    prop = sys.argv[1]
    func, level = registry.CHECKS[prop]
    ctx = core.Ctx(prop)
    try:
        try:
            func(ctx)
        except core.Violation as v:
            d = save_replay(ctx, v)
            write_evidence(ctx, level, "violation: " + v.what[:500])
            print("VIOLATION property=%s replay=%s" % (prop, d))
            print(v.what[:2000])
            return 1
        write_evidence(ctx, level, "held on everything explored")
        print("OK property=%s: %d model states, %d cases and %d events of the "
              "implementation validated, %.1f s" % (
                  prop, ctx.mc_states, ctx.cases, ctx.events,
                  time.time() - ctx.t0))
        return 0
    except core.CheckError as e:
        print("ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
