"""Restores an iterator from a checkpoint directory in a process of its own and prints what it produces (used by C24).

Usage: python -m gv.ckpt_child FILE, a JSON file with spec, kind, dir, api, n.
"""
import json
import sys


def main():
  job = json.load(open(sys.argv[1]))
  from gv.props import c24
  it = c24.make(job["kind"], job["spec"])
  it = c24.restore(it, c24.epath.Path(job["dir"]), job["api"])
  print("GV" + json.dumps([c24.text(x) for x in c24.take(it, job["n"])[0]]))
  sys.stdout.flush()


if __name__ == "__main__":
  main()
