#!/usr/bin/env python3
"""check.py run <property> [--tier T] [--seed N] [--runs N] | replay <file>."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
  ap = argparse.ArgumentParser()
  sub = ap.add_subparsers(dest="cmd", required=True)
  r = sub.add_parser("run")
  r.add_argument("property")
  r.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  r.add_argument("--seed", type=int,
                 default=int(os.environ.get("VERIF_SEED", "1")))
  r.add_argument("--runs", type=int)
  r.add_argument("--start", type=int, default=0)
  r.add_argument("--cap", type=float)
  r.add_argument("--workers", type=int)
  p = sub.add_parser("replay")
  p.add_argument("file")
  a = ap.parse_args()
  from vsim import runner
  if a.cmd == "replay":
    return runner.replay(a.file)
  tier = a.tier if a.tier in ("quick", "thorough") else "quick"
  return runner.run_check(a.property, tier, a.seed, a.runs, a.cap, a.start,
                          a.workers)


if __name__ == "__main__":
  sys.exit(main())
