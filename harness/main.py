"""Entry point: main.py <PROPERTY> [--tier quick|thorough]"""

import importlib
import os
import sys
import traceback

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import logging

logging.disable(logging.CRITICAL)

from common import Ctx, Hang, MachineryError


def main() -> int:
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(f"check_{prop.lower()}")
        mod.run(ctx)
    except MachineryError as err:
        print(f"CHECK-ERROR {prop}: {err}", flush=True)
        if not ctx.violations:
            return 2
        # A verdict was already reached on real executions before the failure.
    except Exception as err:
        traceback.print_exc()
        ours = [
            frame.filename
            for frame in traceback.extract_tb(err.__traceback__)
            if "/repo/src/koreo/" in frame.filename
            or frame.filename.startswith(os.path.dirname(os.path.abspath(__file__)))
        ]
        if ours and "/repo/src/koreo/" in ours[-1]:
            # the code under test raised where no call of ours may raise
            ctx.violation(
                "unexpected-exception",
                {"error": repr(err), "traceback": traceback.format_exc()[-4000:]},
            )
        elif isinstance(
            err, (RecursionError, KeyError, IndexError, ValueError, AssertionError)
        ) or (isinstance(err, TypeError) and "argument" not in f"{err}"):
            # What was observed is nothing the projection knows (endless data, a
            # value of another type): not an observation of the unchanged code.
            ctx.violation(
                "observation-outside-the-model",
                {"error": repr(err)[:500], "traceback": traceback.format_exc()[-4000:]},
            )
        elif not ctx.violations:
            return 2
    except Hang as err:
        # A phase which takes seconds did not end within minutes.
        traceback.print_exc()
        frames = traceback.extract_tb(err.__traceback__)
        if any("/repo/src/koreo/" in frame.filename for frame in frames):
            ctx.violation("does-not-return", {"traceback": traceback.format_exc()[-4000:]})
        elif not ctx.violations:
            return 2
    return ctx.finish(getattr(sys.modules.get(f"check_{prop.lower()}"), "LEVEL", "model_checking"))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
