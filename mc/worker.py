"""One exploration worker (see run.py)."""
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings


def main():
    prop, tier, mode, shard, nshards, out, seed = sys.argv[1:8]
    only_section = sys.argv[8] if len(sys.argv) > 8 else None
    only_key = sys.argv[9] if len(sys.argv) > 9 else None
    warnings.simplefilter("ignore")
    if mode == "interp":
        from mc import rngctl

        rngctl.install()
    import graph_ensembles

    src = os.environ["PYTHONPATH"].split(os.pathsep)[0]
    assert os.path.realpath(graph_ensembles.__file__).startswith(
        os.path.realpath(src)), graph_ensembles.__file__
    from mc.core import Ctx, StopExploration

    mod = importlib.import_module("mc.checks." + prop.lower())
    ctx = Ctx(prop, tier, mode, int(shard), int(nshards), only_key, int(seed))
    casefile = out + ".case"
    orig_take = ctx.take

    def take(key, group=None):
        ok = orig_take(key, group)
        if ok and mode == "jit":
            with open(casefile, "w") as f:
                json.dump({"section": ctx.section, "key": ctx.key}, f)
        return ok

    ctx.take = take
    for name, fn, modes in mod.SECTIONS:
        if mode not in modes:
            continue
        if only_section and name != only_section:
            continue
        ctx.section = name
        t = time.time()
        try:
            fn(ctx)
        except StopExploration:
            break
        print("%s %s/%s %.1fs" % (name, mode, shard, time.time() - t), flush=True)
    with open(out, "w") as f:
        json.dump(ctx.dump(), f)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
