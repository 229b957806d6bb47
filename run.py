#!/usr/bin/env python3
"""run.py Cxx [--replay FILE]: decides one property on the current tree of /repo."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import check, core, props  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        print("built", core.build())
        return 0
    if "--replay" in sys.argv:
        return check.replay(sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = check.Check(pid, tier, seed, props.FOCUS.get(pid, ["all"]))
    rule = props.CHECKS[pid](ck)
    for d in getattr(ck, "pending", []):
        d.result()
    return ck.finish(rule, props.ASSUMPTIONS)


if __name__ == "__main__":
    try:
        code = main()
    except core.ToolError as e:
        print("tool error: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
