"""Check runner: shards, stall monitor, verdict, evidence."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HOME = os.environ["GV_HOME"]
EVID = os.path.join(HOME, "evidence")
TICK = os.sysconf("SC_CLK_TCK")


def session_procs(sid):
  """[(pid, [thread states], cpu_ticks)] of a session's processes (ours only)."""
  res = []
  for p in os.listdir("/proc"):
    if not p.isdigit():
      continue
    try:
      with open(f"/proc/{p}/stat") as f:
        s = f.read()
      rest = s.rsplit(")", 1)[1].split()
      if int(rest[3]) != sid:
        continue
      states = []
      for t in os.listdir(f"/proc/{p}/task"):
        with open(f"/proc/{p}/task/{t}/stat") as f:
          states.append(f.read().rsplit(")", 1)[1].split()[0])
      res.append((int(p), states, int(rest[11]) + int(rest[12])))
    except (OSError, IndexError, ValueError):
      continue
  return res


def cpu_of(sid):
  return sum(c for _, _, c in session_procs(sid)) / TICK


class Shard:
  def __init__(self, prop, tier, seed, shard, n, budget, only, root):
    self.k = shard
    self.out = os.path.join(root, f"events{shard}.jsonl")
    self.err = os.path.join(root, f"stderr{shard}.txt")
    open(self.out, "w").close()
    tmp = os.path.join(root, f"tmp{shard}")
    os.makedirs(tmp)
    env = dict(os.environ)
    env["GV_SHARD"] = str(shard)
    env["GV_ROOT"] = root
    env["TMPDIR"] = tmp
    self.proc = subprocess.Popen(
        [sys.executable, "-B", "-m", "gv.shard", prop, tier, str(seed), str(shard), str(n), self.out,
         str(budget), only, tmp],
        stdout=open(self.err, "a"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
        start_new_session=True, cwd=tmp, env=env)
    self.sid = self.proc.pid
    self.pos = 0
    self.partial = ""
    self.last = time.monotonic()
    self.cpu_at = 0.0
    self.current = None
    self.info = None
    self.done = None
    self.events = []
    self.verdict = None
    self.quiet = 0

  def poll(self):
    new = []
    try:
      with open(self.out) as f:
        f.seek(self.pos)
        data = f.read()
        self.pos = f.tell()
    except OSError:
      data = ""
    if data:
      lines = (self.partial + data).split("\n")
      self.partial = lines.pop()
      for l in lines:
        if not l:
          continue
        try:
          e = json.loads(l)
        except ValueError:
          continue
        new.append(e)
        self.last = time.monotonic()
        self.quiet = 0
        self.cpu_at = None
        if e["t"] == "start":
          self.current, self.info = e["i"], None
        elif e["t"] == "info":
          self.info = e["info"]
        elif e["t"] == "done":
          self.done = e
    return new

  def kill(self):
    for sig in (signal.SIGTERM, signal.SIGKILL):
      try:
        os.killpg(self.sid, sig)
      except (ProcessLookupError, PermissionError):
        pass
      # members of the session that changed group
      for p, _, _ in session_procs(self.sid):
        try:
          os.kill(p, sig)
        except OSError:
          pass
      if self.proc.poll() is not None and not session_procs(self.sid):
        return
      time.sleep(0.3 if sig == signal.SIGTERM else 0.0)
    try:
      self.proc.wait(5)
    except subprocess.TimeoutExpired:
      pass


def diagnose_stall(sh, stall_s, spin_cpu):
  """'hang' | 'spin' | None (keep waiting)."""
  idle = time.monotonic() - sh.last
  cpu = cpu_of(sh.sid)
  if sh.cpu_at is None or idle < 3:
    sh.cpu_at = cpu
    return None
  if idle < stall_s:
    return None
  if cpu - sh.cpu_at > spin_cpu and idle > stall_s * 1.5:
    return "spin"
  if idle > 200 and cpu - sh.cpu_at > 20:
    return "stuck"
  # quiescent? 12 samples over 6 s: threads asleep, next to no CPU used
  c0, running = cpu_of(sh.sid), 0
  for _ in range(12):
    time.sleep(0.5)
    running += any(s in "RD" for _, states, _ in session_procs(sh.sid) for s in states)
  if running > 2 or cpu_of(sh.sid) - c0 > 0.5:
    return None
  return "hang"


def stack_digest(txt):
  """The thread dump without idle pool workers, shortest useful form."""
  blocks = txt.split("\n\n")
  keep = []
  for b in blocks:
    if "Thread 0x" in b or "Current thread" in b or "thread 0x" in b:
      fr = [l for l in b.splitlines() if l.strip().startswith("File")]
      if fr and "concurrent/futures/thread.py" in fr[0] and "_worker" in fr[0]:
        continue
    keep.append(b)
  return "\n\n".join(keep)[-14000:]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
  ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
  ap.add_argument("--replay")
  ap.add_argument("--cases", type=int)
  ap.add_argument("--only")
  ap.add_argument("--shards", type=int, default=8)
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  prop, tier, seed, only = a.prop.upper(), a.tier, a.seed, a.only or "-"
  if a.replay:
    r = json.load(open(a.replay))
    tier, seed, only = r["tier"], r["seed"], str(r["case"])
    if only == "end":
      only = "-"
  t0 = time.monotonic()
  from gv import meta
  m = meta.META[prop]
  plan = m["plan"][tier]
  n = 1 if only != "-" else min(a.shards, m.get("shards", 8))
  root = tempfile.mkdtemp(prefix=f"gv_{prop}_")
  if not a.replay and os.path.isdir(EVID):
    for f in os.listdir(EVID):
      if f.startswith(f"replay_{prop}_"):
        os.unlink(os.path.join(EVID, f))
  os.chmod(root, 0o755)
  known = {}
  kf_path = os.path.join(HOME, "known_findings.json")
  if os.path.exists(kf_path):
    for f in json.load(open(kf_path)).get("findings", []):
      if f["property"] == prop:
        known[f["key"]] = f
  budget = plan["budget_s"]
  stall_s, spin_cpu = m.get("stall_s", 60), m.get("spin_cpu", 60)
  code = 2
  shards = []
  viols, errors, inconcl, stalls = [], [], [], []
  ended = 0
  known_seen = {}
  setup_err = None
  try:
    if m.get("prepare"):
      modname, fn = m["prepare"].split(":")
      prep = getattr(importlib.import_module(modname), fn)
      prep(root)  # raises on failure -> error
    shards = [Shard(prop, tier, seed, k, n, budget, only, root) for k in range(n)]
    hard = time.monotonic() + budget + m.get("grace_s", 300)
    live = list(shards)
    while live:
      time.sleep(0.05)
      for sh in list(live):
        for e in sh.poll():
          if a.v and e["t"] not in ("beat", "start", "end", "info"):
            print("shard", sh.k, json.dumps(e)[:3000], flush=True)
          if e["t"] == "viol":
            e["shard"] = sh.k
            if e["key"] in known:
              known_seen.setdefault(e["key"], e)
            else:
              viols.append(e)
          elif e["t"] == "error":
            errors.append(e)
          elif e["t"] == "inconclusive":
            inconcl.append(e)
          elif e["t"] == "end":
            ended += 1
        if sh.proc.poll() is not None:
          sh.poll()
          if sh.done is None:
            for e in sh.poll():
              pass
            tail = open(sh.err, errors="replace").read()[-3000:]
            rc = sh.proc.returncode
            msg = f"shard {sh.k} died rc={rc} in case {sh.current}: {tail}"
            if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, -signal.SIGABRT) or "AddressSanitizer" in tail or "runtime error:" in tail:
              viols.append({"i": sh.current, "key": f"crash:{rc}", "msg": msg, "data": {}, "info": sh.info,
                            "tb": tail, "shard": sh.k})
            else:
              errors.append({"i": sh.current, "msg": msg})
          live.remove(sh)
          sh.kill()
          continue
        v = diagnose_stall(sh, stall_s, spin_cpu)
        if v:
          try:
            os.kill(sh.proc.pid, signal.SIGUSR1)
          except OSError:
            pass
          time.sleep(1.0)
          tail = stack_digest(open(sh.err, errors="replace").read())
          # progressed meanwhile?
          if sh.poll():
            continue
          viols.append({"i": sh.current, "key": v, "msg": f"no progress ({v}) in case {sh.current}",
                        "data": {}, "info": sh.info, "tb": tail, "shard": sh.k})
          sh.kill()
          live.remove(sh)
      if len(viols) >= 4:
        break
      if time.monotonic() > hard:
        for sh in live:
          stalls.append(f"shard {sh.k} exceeded the wall budget in case {sh.current}")
        break
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    setup_err = traceback.format_exc()
  finally:
    for sh in shards:
      sh.kill()
  counts, sigs, samples = {}, set(), []
  for sh in shards:
    if sh.done:
      for k, v in sh.done["counts"].items():
        counts[k] = counts.get(k, 0) + v
      sigs.update(sh.done["sigs"])
      samples.extend(sh.done["samples"])
  for v in viols:  # a violation found before 'done' still counts as an evaluation
    counts["violating_cases"] = counts.get("violating_cases", 0) + 1
  wall = time.monotonic() - t0
  if a.replay is None and a.only is None and a.cases is None:
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": m["level"],
        "coverage": {
            "evaluations": ended + len(viols) + len(known_seen),
            "distinct_nontrivial": len(sigs),
            "rule": m["rule"],
            "samples": samples[:8] or [{"note": "no sample recorded"}],
            "observed": counts,
        },
        "assumptions": m.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
      json.dump(ev, f, indent=1)
  shutil.rmtree(root, ignore_errors=True)
  for key, f in known.items():
    if key in known_seen:
      print(f"KNOWN-FINDING: property={prop} {f['what']}")
  if viols:
    os.makedirs(EVID, exist_ok=True)
    seen_keys = set()
    for j, v in enumerate(viols):
      if v["key"] in seen_keys and j > 3:
        continue
      seen_keys.add(v["key"])
      path = os.path.join(EVID, f"replay_{prop}_{j}.json")
      with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["i"], "key": v["key"],
                   "msg": v["msg"], "data": v.get("data"), "info": v.get("info"), "tb": v.get("tb")}, f, indent=1)
      print(f"VIOLATION property={prop} replay={path}")
      print(f"  case={v['i']} key={v['key']} {v['msg'][:600]}")
      if a.v:
        print(json.dumps({"info": v.get("info"), "data": v.get("data")})[:3000])
        print(v.get("tb"))
    code = 1
  elif setup_err or errors:
    print("ERROR", setup_err or errors[0]["msg"])
    for e in errors[1:3]:
      print("ERROR", e["msg"][-1500:])
    code = 2
  else:
    short = []
    if only == "-" and a.cases is None:
      for k, v in m.get("min", {}).get(tier, {}).items():
        if counts.get(k, 0) < 0.4 * v:
          short.append(f"{k}={counts.get(k, 0)}<{v}")
    for st in stalls:
      print("NOTE", st)
    if short:
      print("INCONCLUSIVE: the monitor observed too little:", ", ".join(short))
      code = 2
    else:
      print(f"OK property={prop} tier={tier} seed={seed} cases={ended} distinct={len(sigs)} "
            f"observed={json.dumps(counts, sort_keys=True)} wall={wall:.1f}s")
      code = 0
  sys.stdout.flush()
  sys.exit(code)


if __name__ == "__main__":
  main()
