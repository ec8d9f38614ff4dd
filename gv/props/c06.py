"""C06: iterator transformations follow their documented sequential meaning."""
from gv import core, pipes
from gv.core import snap, take


def case(ctx, i, rng):
  g = pipes.G(rng, max_n=24, model_only=True, deep=6)
  spec, _ = g.iterds()
  ctx.describe(spec=spec)
  want, ended = pipes.total(spec, 150)
  ds = pipes.build(spec)
  got, e = take(iter(ds), len(want) + (1 if ended else 0), ctx)
  got = [snap(x) for x in got]
  ctx.equal(got, want, "sequence-mismatch", "the produced sequence is not the documented one")
  if len(want) > 1:
    ctx.sig(spec)
  ctx.sample(spec)
  for o in set(pipes.ops_of(spec)):
    ctx.count("op:" + o)
  ctx.count("elements", len(got))
  it = iter(ds)     # a second iterator of the same dataset object starts over
  got2, e = take(it, len(want) + (1 if ended else 0), ctx)
  ctx.equal([snap(x) for x in got2], want, "second-iterator-mismatch", "a second iterator produced another sequence")
  if ended:
    for _ in range(3):
      g2, e2 = take(it, 1)
      ctx.check(e2, "element-after-end", "an element was produced after the end was reported", got=g2)
      ctx.count("reads_after_end")
  ctx.check(e == ended, "end-mismatch", "end reported elsewhere than documented")
