import argparse
import importlib
import os
import sys
import traceback

import vf

LEVELS = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(a.prop.lower())
    ctx = vf.Ctx(a.prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(ctx)
    except BaseException:
        traceback.print_exc()
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 3
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
