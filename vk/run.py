"""/verif/check <ID>: run one property's check (tier and seed from the environment)"""
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vk import core, env  # noqa: E402


def main() -> int:
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = core.Ctx(pid, tier, seed)
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f"vk.props.{pid.lower()}")
    ctx.rule = mod.RULE
    ctx.scale = int(os.environ.get("VK_SCALE", 0)) or getattr(mod, "SCALE", 4)
    env.setup(types=getattr(mod, "NEEDS_TYPES", False))
    verdict, reason = "held", ""
    try:
        ctx.watch()
        try:
            for name in getattr(mod, "MODULES", ()):
                env.load(name)
        except Exception as e:
            ctx.fail("load", f"the code under test can't be imported: {type(e).__name__}: {e}",
                     traceback=traceback.format_exc()[-1500:])
            raise core.StopRun
        with ctx.guard("workload"):
            mod.run(ctx)
        if not ctx.violations and (not ctx.evaluations or not ctx.distinct):
            raise core.Inconclusive("nothing was observed")
    except core.StopRun:
        pass
    except core.Inconclusive as e:
        verdict, reason = "inconclusive", str(e)
    except Exception:
        traceback.print_exc()
        verdict, reason = "inconclusive", "harness error"
    ctx.unwatch()
    if ctx.violations:
        verdict = "violated"
    return core.finish(ctx, verdict, reason)


if __name__ == "__main__":
    sys.exit(main())
