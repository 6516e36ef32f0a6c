#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide a property on /repo's tree
check.py --replay <file>                    run a recorded violation again"""
import json
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

import build        # noqa: E402
import engine       # noqa: E402
import props        # noqa: E402
import threads      # noqa: E402
import tlc          # noqa: E402


def replay(path):
    d = json.load(open(path))
    ctx = engine.Ctx(d["property"], "quick", d["seed"])
    job = engine.Job(d["name"], d["variant"], None, d["memory"], d["fresh"], d["env"])
    if "threads" in d:          # schedules differ from run to run
        job.threads = d["threads"]
        for _ in range(20):
            s = threads.execute(d["variant"], d["threads"])
            v = threads.judge(ctx, job, s)
            if v is not None:
                break
    else:
        s = ctx.run_job(job, d["commands"])
        v = ctx.judge(job, s)
    if v is None:
        print("the recorded run is accepted now")
        return 0
    ctx.violations.append((job, s, v))
    ctx.report()
    return 1


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = engine.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    os.makedirs(build.BUILD, exist_ok=True)
    p = props.PROPS[prop]
    first = threading.Thread(target=lambda: build.quiet(p.get("first", "lock")))
    first.start()
    try:
        p["plan"](ctx)
        first.join()
        ctx.execute()
    except Exception as e:      # noqa: BLE001
        if not isinstance(e, (tlc.SpecError, build.BuildError)):
            traceback.print_exc()
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    ctx.assumptions = p.get("assumptions", [])
    ctx.report()
    ctx.evidence(p["level"])
    c = ctx.cov
    print("%s %s: %d model states and events, %d behaviours replayed in %d validated runs, %d events, %d violations, %.0f s"
          % (prop, tier, c["states"], c["behaviours_replayed"], c["traces_validated_against_impl"], c["events"],
             len(ctx.violations), __import__("time").time() - ctx.t0))
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main())
