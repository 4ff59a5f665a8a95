#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   run one check
   run.py replay FILE                 play the failing history of a replay file again
   run.py setup                       build what the checks share"""
import json
import os
import pathlib
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "harness"))
import core  # noqa: E402
import checks  # noqa: E402


def replay(info):
    ctx = core.Ctx(info["property"], "replay", 1)
    try:
        checks.replay(ctx, info)
        for found in ctx.violations:
            print(json.dumps({k: v for k, v in found.items() if k != "stimuli"}, indent=1))
        print("rejected by the specification" if ctx.violations else "accepted by the specification")
        return 1 if ctx.violations else 0
    finally:
        ctx.close()


def main():
    if sys.argv[1] == "setup":
        core.build_words()
        core.build_shim()
        return 0
    if sys.argv[1] == "replay":
        return replay(json.loads(pathlib.Path(sys.argv[2]).read_text()))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = core.Ctx(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        checks.CHECKS[ctx.prop](ctx)
        return ctx.finish()
    except core.Broken as exc:
        if ctx.violations:
            return ctx.finish()
        print(f"check could not run: {exc}")
        return 2
    except Exception:  # pylint: disable=broad-exception-caught
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
