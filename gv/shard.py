"""Runs a slice of a property's cases in this process (started by gv.main)."""
import faulthandler
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time


def run(argv):
  prop, tier, seed, shard, nshards, outfile, budget, only, tmp = argv
  seed, shard, nshards, budget = int(seed), int(shard), int(nshards), float(budget)
  faulthandler.enable()
  faulthandler.register(signal.SIGUSR1, all_threads=True, chain=False)
  out = open(outfile, "a", buffering=1)
  from gv import core
  t_import = time.monotonic()
  mod = importlib.import_module(f"gv.props.{prop.lower()}")
  ctx = core.Ctx(prop, tier, seed, out, tmp, replay=only != "-")
  ctx.shard, ctx.nshards = shard, nshards
  ctx.emit(t="ready", s=round(time.monotonic() - t_import, 2))
  from gv import meta
  plan = meta.META[prop]["plan"][tier]
  if hasattr(mod, "setup"):
    mod.setup(ctx)
  t0 = time.monotonic()
  if only != "-":
    ids = [int(x) if x.lstrip("-").isdigit() else x for x in only.split(",")]
  else:
    directed = [f"d{j}" for j in range(len(getattr(mod, "DIRECTED", [])))]
    ids = directed[shard::nshards] + list(range(shard, plan["cases"], nshards))
  least = meta.META[prop]["min"].get(tier, {})

  def enough():  # a slow machine gets more time, up to two minutes
    return all(ctx.counts.get(k, 0) >= 0.5 * v / nshards for k, v in least.items() if v >= nshards)

  for i in ids:
    t = time.monotonic() - t0
    if t > budget and only == "-" and (t > budget + 120 or enough()):
      ctx.emit(t="budget", i=i)
      break
    ctx.info = None
    ctx.emit(t="start", i=i)
    rng = core.rng_for(seed, prop, i)
    random.seed(f"{seed}:{i}")
    try:
      if isinstance(i, str):
        mod.DIRECTED[int(i[1:])](ctx, rng)
      else:
        mod.case(ctx, i, rng)
      ctx.emit(t="end", i=i)
    except core.Violation as v:
      ctx.emit(t="viol", i=i, key=v.key, msg=v.msg, data=core.jsonable(v.data), info=ctx.info,
               tb=core.tb_text(v)[-1500:])
    except core.Inconclusive as v:
      ctx.count("inconclusive_cases")
      ctx.emit(t="inconclusive", i=i, msg=str(v))
    except MemoryError:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      if isinstance(e, (KeyboardInterrupt, SystemExit)) and not core.through_grain(e):
        raise
      if core.through_grain(e) and not isinstance(e, core.HarnessError):
        ctx.emit(t="viol", i=i, key=f"unexpected-exception:{type(e).__name__}",
                 msg=f"{type(e).__name__}: {str(e)[:400]}", data={}, info=ctx.info, tb=core.tb_text(e))
      else:
        ctx.emit(t="error", i=i, msg=core.tb_text(e), info=ctx.info)
  if hasattr(mod, "teardown"):
    try:
      mod.teardown(ctx)
    except core.Violation as v:
      ctx.emit(t="viol", i="end", key=v.key, msg=v.msg, data=core.jsonable(v.data), info=None, tb="")
  ctx.emit(t="done", counts=ctx.counts, sigs=sorted(ctx.sigs), samples=ctx.samples)
  out.close()
  shutil.rmtree(tmp, ignore_errors=True)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)


if __name__ == "__main__":
  run(sys.argv[1:])
