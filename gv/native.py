"""Builds the native shuffle from /repo's working tree: sanitized drivers and the Python module."""
import os
import subprocess
import sys

from gv.core import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
SUB = "grain/_src/python/experimental/index_shuffle"


def prepare(root):
  """Compiles, in parallel, the ASan+UBSan driver, the TSan driver and the extension module."""
  out = os.path.join(root, "native")
  os.makedirs(out)
  src = os.path.join(REPO, SUB, "index_shuffle.cc")
  har = os.path.join(HERE, "shuffle_harness.cc")
  cmds = {
      "asan": ["g++", "-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I", REPO,
               har, src, "-o", f"{out}/asan", "-lpthread"],
      "tsan": ["g++", "-std=c++17", "-O1", "-g", "-fsanitize=thread", "-I", REPO, har, src, "-o", f"{out}/tsan",
               "-lpthread"],
      "module": None,
  }
  inc = subprocess.run([sys.executable, "-m", "pybind11", "--includes"], capture_output=True, text=True, check=True).stdout.split()
  pydir = os.path.join(REPO, SUB, "python")
  mods = [os.path.join(pydir, f) for f in os.listdir(pydir) if f.endswith("module.cc")]
  cmds["module"] = (["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-fvisibility=hidden", "-I", REPO] + inc + [src] + mods +
                    ["-o", f"{out}/index_shuffle_module.so", "-labsl_strings", "-labsl_strings_internal",
                     "-labsl_raw_logging_internal"])
  ps = {k: subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for k, c in cmds.items()}
  for k, p in ps.items():
    o, _ = p.communicate(timeout=300)
    if p.returncode:
      raise RuntimeError(f"building {k} failed: {o[-2000:]}")


def inject():
  """Makes this process use the freshly compiled extension."""
  import importlib.util
  name = "grain._src.python.experimental.index_shuffle.python.index_shuffle_module"
  so = os.path.join(os.environ["GV_ROOT"], "native", "index_shuffle_module.so")
  spec = importlib.util.spec_from_file_location(name, so)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  sys.modules[name] = m
  return m
