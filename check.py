#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--determinism N] [--one RUN] [--digest FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)

from sim import env  # noqa: E402

env.reexec()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--one", type=int)
    ap.add_argument("--digest")
    a = ap.parse_args()
    from sim import runner
    env.install()
    if a.replay:
        return runner.replay(a.property, a.replay)
    if a.determinism:
        return runner.determinism(a.property, a.tier, a.seed, a.determinism)
    if a.digest:
        return runner.print_digest(a.property, a.digest)
    if a.one is not None:
        import json
        prop = runner.load_prop(a.property)
        runner.prepare(prop)
        plan = runner.plan_for(prop, a.seed, a.one, a.tier)
        print(json.dumps(plan))
        res = runner.run_one(prop, plan)
        res.pop("trace", None)
        print(json.dumps(res, indent=1, default=str)[:6000])
        return 0
    return runner.check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
