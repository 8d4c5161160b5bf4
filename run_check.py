#!/opt/venv/bin/python
"""Entry point of every check: run_check.py <property> [--tier quick|thorough]."""

import argparse
import importlib
import json
import os
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))

from harness import core  # noqa: E402


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay", help="re-judge a recorded trace")
    args = parser.parse_args()
    core.setup_repo_import()
    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        ctx = core.Ctx(data["property"], "quick")
        try:
            rep = data["replay"]
            for tid, step, clause in ctx.validate(rep["module"], [rep["trace"]], "replay"):
                print(f"clause {clause} fails at step {step}")
            return 1 if ctx.violations else 0
        finally:
            ctx.cleanup()
    ctx = core.Ctx(args.property, args.tier)
    try:
        module = importlib.import_module(f"harness.checks.{args.property.lower()}")
        module.run(ctx)
        return ctx.finish()
    except core.MachineryError as exc:
        print(f"MACHINERY ERROR: {exc}", file=sys.stderr)
        return 2
    except Exception as exc:  # pylint: disable=broad-except
        # An exception that escapes from the repository through a call the driver made
        # unguarded (reading a property, a constructor used for setup) is an
        # observation: on the unchanged tree none occurs.
        frames = traceback.extract_tb(exc.__traceback__)
        traceback.print_exc()
        if any(f.filename.startswith(core.REPO + "/ramannoodle") for f in frames):
            ctx.violation(
                f"{ctx.pid}.unexpected-exception",
                {"exception": "".join(traceback.format_exception(exc))},
                "driver",
            )
            return ctx.finish()
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
