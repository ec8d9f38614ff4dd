"""Executes the cases of C25 without JAX: reads JSON jobs from stdin, writes their results to stdout."""
import json
import os
import sys


def main():
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  from gv.props import c25
  assert "jax.tree_util" not in sys.modules
  try:
    import jax  # noqa: F401
    raise SystemExit("JAX is importable")
  except ImportError:
    pass
  for line in sys.stdin:
    job = json.loads(line)
    try:
      res = c25.execute(job)
    except BaseException as e:  # pylint: disable=broad-except
      import traceback
      res = {"crash": traceback.format_exc()[-3000:], "type": type(e).__name__}
    out.write("GV" + json.dumps(res) + "\n")
    out.flush()


if __name__ == "__main__":
  main()
