"""Runs many seeded simulations of one property and reports."""
import collections
import copy
import faulthandler
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("VSIM_PYTHON", "/opt/venv/bin/python")
SRC = os.environ.get("VSIM_SRC", "/repo/python/src")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

_PROTOCOL = {
    "atomic", "reader", "closure", "durable", "lost", "history", "ids",
    "immutable", "conflict", "ack", "spurious", "error", "refs", "progress",
    "hang", "abort", "create"
}
_DATA = {"rows", "load", "record"}
_READ = {"read", "readerror", "isolation", "rayread"}

# Which violation kinds break which property (in its own workload).
KINDS = {
    "C01": _PROTOCOL | {"ioerror"},
    "C02": _PROTOCOL | {"rows", "ioerror"},
    "C03": _PROTOCOL | _READ | {"diff", "record"},
    "C04": _PROTOCOL | {"rows", "ray", "ioerror"},
    "C05": _PROTOCOL | _READ | {"record", "rows", "ray"},
    "C06": _PROTOCOL | _READ | {"rows", "ray", "diff"},
    "C07": _PROTOCOL | _READ | _DATA,
    "C08": {"error", "closure", "history", "hang", "abort", "minmax", "rows",
            "record", "refs"} | _READ,
    "C09": _PROTOCOL | {"diff", "rows", "ray"},
    "C10": _PROTOCOL | _READ | {"ioerror", "rows", "record", "diff"},
    "C11": _PROTOCOL | _READ | _DATA | {"ray"},
    "C12": {"stats", "minmax", "closure", "ack", "hang", "abort", "error"},
    "C13": _PROTOCOL | _READ | _DATA | {"ray", "diff", "stats", "minmax"},
    "C14": _PROTOCOL | _READ | _DATA | {"ray", "ioerror", "stats", "minmax"},
    "C15": _PROTOCOL | {"mv", "rows", "ioerror"},
    "C16": {"view", "error", "hang", "abort", "progress", "refs"},
    "C17": {"join", "error", "hang", "abort", "progress"},
    "C18": _PROTOCOL | {"reloc", "rows", "record"},
    "C19": _PROTOCOL | {"mv", "rows", "ioerror", "read", "readerror"},
    "C20": _PROTOCOL | _READ | _DATA | {"extfile", "diff", "minmax", "stats"},
    "C21": _PROTOCOL | {"ioerror", "rows", "ray"},
    "C22": _READ | _DATA | {"value", "record", "error", "hang", "abort"},
    "C23": _READ | {"schema", "create", "error", "hang", "abort", "rows"},
}

# Simulated runs per tier.
QUICK = {"C15": 420, "C07": 720, "C08": 720, "C17": 560, "C13": 800}
QUICK_DEFAULT = 900
QUICK_CAP = 200.0  # seconds of search, far above the normal duration
THOROUGH_CAP = 1500.0
RUN_TIMEOUT = 120.0


def environment():
  env = dict(os.environ)
  env["PYTHONPATH"] = os.pathsep.join(
      [SRC, VERIF, os.path.join(VERIF, "vsim", "simray")])
  env.update(TZ="UTC", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
             PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
             ARROW_DEFAULT_MEMORY_POOL="system")
  env.setdefault("PYTHONHASHSEED", "0")
  return env


# ---------------------------------------------------------------------- worker
def execute(sc):
  """Run one scenario; returns a JSON-serialisable summary."""
  from vsim.world import World  # pylint: disable=import-outside-toplevel
  t = time.monotonic()
  w = World(sc).run()
  s = w.sim
  out = {
      "violations": [v.as_dict() for v in w.violations],
      "known": sorted(set(w.known)),
      "log": s.log.hexdigest(),
      "sched": s.sched_hash.hexdigest(),
      "steps": s.step,
      "sim_s": round(s.now - s.t0, 3),
      "switches": s.switches,
      "fired": s.fired,
      "sites": sorted("/".join(x) for x in s.fault_sites),
      "probes": {k: v for k, v in w.probes.items()},
      "results": dict(w.results),
      "workers": s.stats.get("ray_workers", 0),
      "commits": sum(len(x.states) - 1 for x in w.stores.values()
                     if x.states),
      "shape": shape(w),
      "wall": round(time.monotonic() - t, 4),
  }
  if sc.get("want_schedule"):
    out["schedule"] = s.recorded
  if sc.get("trace"):
    out["trace"] = s.log_lines
  return out


def shape(w):
  """The final state of the storages, without paths."""
  out = []
  for n, st in sorted(w.stores.items()):
    if st.exists:
      out.append((n, sorted((i, s.parent, len(s.rows))
                            for i, s in st.snaps.items()),
                  sorted(st.refs.items())))
  return format(hash_of(out), "016x")


def hash_of(x):
  from vsim.core import h64  # pylint: disable=import-outside-toplevel
  return h64(repr(x))


def worker_main():
  """Reads scenarios from stdin, one JSON object per line."""
  faulthandler.enable()
  out = os.fdopen(os.dup(1), "w", buffering=1)
  os.dup2(2, 1)
  from vsim import gen  # pylint: disable=import-outside-toplevel
  from vsim.world import import_space
  from vsim import io as sio
  sio.install()
  import_space()
  out.write("ready\n")
  for line in sys.stdin:
    req = json.loads(line)
    sc = req.get("scenario")
    if sc is None:
      sc = json.loads(json.dumps(gen.generate(req["pid"], req["seed"])))
    sc.update(req.get("extra") or {})
    try:
      r = execute(sc)
    except BaseException as e:  # pylint: disable=broad-except
      import traceback
      r = {"harness_error": traceback.format_exc()[-3000:]}
      del e
    r["n"] = req.get("n")
    out.write(json.dumps(r) + "\n")


class Worker:
  """A worker process; requests are answered in order."""

  def __init__(self):
    self.proc = None
    self.served = 0

  def start(self):
    self.proc = subprocess.Popen(
        [PYTHON, "-c", "from vsim.runner import worker_main; worker_main()"],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE if os.environ.get("VSIM_DEBUG") is None else
        None, env=environment(), cwd=VERIF, text=True)
    self.err = collections.deque(maxlen=40)
    if self.proc.stderr is not None:
      def drain(p=self.proc, err=self.err):
        for line in p.stderr:
          err.append(line[:300])
      threading.Thread(target=drain, daemon=True).start()
    self.lines = queue.Queue()

    def read(p=self.proc, q=self.lines):
      for line in p.stdout:
        q.put(line)
      q.put(None)

    threading.Thread(target=read, daemon=True).start()
    first = self.lines.get(timeout=300)
    if first is None:
      time.sleep(0.3)
      raise ImportFailed("".join(self.err))
    self.served = 0

  def call(self, req, timeout=RUN_TIMEOUT):
    """The result, or {"died": reason}."""
    if self.proc is None or self.served >= 500:
      self.stop()
      self.start()
    self.served += 1
    try:
      self.proc.stdin.write(json.dumps(req) + "\n")
      self.proc.stdin.flush()
      line = self.lines.get(timeout=timeout)
    except queue.Empty:
      self.stop()
      return {"died": "hang", "n": req.get("n")}
    except (BrokenPipeError, OSError):
      line = None
    if line is None:
      time.sleep(0.1)
      err = "".join(self.err)[-600:]
      code = self.proc.poll()
      self.stop()
      return {"died": "abort", "n": req.get("n"), "detail": f"{code} {err}"}
    return json.loads(line)

  def stop(self):
    if self.proc is not None:
      self.proc.kill()
      self.proc.wait()
      self.proc = None


class ImportFailed(Exception):
  pass


def call_confirmed(worker, req, timeout=RUN_TIMEOUT):
  """A hang or an abort counts only when it happens again."""
  r = worker.call(req, timeout)
  if "died" in r:
    r2 = worker.call(req, timeout * 1.5)
    if r2.get("died") == r["died"]:
      kind = r["died"]
      r2 = {"n": req.get("n"), "violations": [{
          "kind": kind,
          "what": ("the run never ends" if kind == "hang" else
                   "the process died"),
          "detail": r.get("detail", "")
      }], "log": "", "sched": "", "steps": 0, "sim_s": 0, "switches": 0,
            "fired": {}, "sites": [], "probes": {}, "results": {}, "known": [],
            "workers": 0, "commits": 0, "shape": "", "wall": timeout}
    return r2
  return r


# ------------------------------------------------------------------- minimise
class Minimizer:
  """Delta debugging over operations, faults, rows and the schedule."""

  def __init__(self, worker, scenario, violation, budget_s=45.0, max_runs=250):
    self.w = worker
    self.v = violation
    self.deadline = time.monotonic() + budget_s
    self.runs = 0
    self.max_runs = max_runs
    self.best = scenario
    self.result = None

  def same(self, r):
    return any(x["kind"] == self.v["kind"] and x["what"] == self.v["what"]
               for x in r.get("violations", []))

  def try_(self, sc):
    if time.monotonic() > self.deadline or self.runs >= self.max_runs:
      return False
    self.runs += 1
    r = self.w.call({"scenario": sc}, 60.0)
    if self.same(r):
      self.best = sc
      self.result = r
      return True
    return False

  def reduce_list(self, get, put):
    """Remove chunks of a list while the violation stays."""
    items = get(self.best)
    n = max(1, len(items) // 2)
    while n >= 1 and items:
      i = 0
      changed = False
      while i < len(items):
        cand = copy.deepcopy(self.best)
        put(cand, items[:i] + items[i + n:])
        if self.try_(cand):
          items = get(self.best)
          changed = True
        else:
          i += n
        if time.monotonic() > self.deadline or self.runs >= self.max_runs:
          return
      if n == 1 and not changed:
        break
      n = n // 2 if n > 1 else (1 if changed else 0)

  def run(self):
    # Replay of an explicit schedule, so that removals keep the rest in place.
    first = self.w.call({"scenario": dict(self.best, want_schedule=1)}, 60.0)
    if not self.same(first):
      return self.best
    self.result = first
    sc = copy.deepcopy(self.best)
    sc["schedule"] = first["schedule"]
    explicit = self.try_(sc)
    if not explicit:
      self.best.pop("schedule", None)
    # Whole clients, faults, finale, then single operations.
    for f in (True,):
      del f
      self.reduce_list(lambda s: s["faults"],
                       lambda s, x: s.__setitem__("faults", x))
      for c in [x["id"] for x in self.best["clients"]]:
        self.reduce_list(lambda s, c=c: client_of(s, c)["ops"],
                         lambda s, x, c=c: client_of(s, c).__setitem__(
                             "ops", x))
      cand = copy.deepcopy(self.best)
      cand["clients"] = [c for c in cand["clients"] if c["ops"]]
      if cand["clients"] and len(cand["clients"]) < len(self.best["clients"]):
        self.try_(cand)
    if self.best.get("finale"):
      self.reduce_list(lambda s: s.get("finale") or [],
                       lambda s, x: s.__setitem__("finale", x))
    for key in ("fopts", "relocate", "p_reader", "ropts"):
      if self.best.get(key):
        cand = copy.deepcopy(self.best)
        cand[key] = {} if key in ("fopts", "ropts") else 0
        self.try_(cand)
    self.reduce_rows()
    if explicit and self.best.get("schedule"):
      self.reduce_list(lambda s: s["schedule"],
                       lambda s, x: s.__setitem__("schedule", x))
    return self.best

  def reduce_rows(self):
    for ci, c in enumerate(self.best["clients"]):
      for oi, o in enumerate(c["ops"]):
        if isinstance(o.get("rows"), list) and len(o["rows"]) > 1:
          self.reduce_list(
              lambda s, ci=ci, oi=oi: s["clients"][ci]["ops"][oi]["rows"],
              lambda s, x, ci=ci, oi=oi: s["clients"][ci]["ops"][oi].
              __setitem__("rows", x))


def client_of(sc, cid):
  return next(c for c in sc["clients"] if c["id"] == cid)


# ------------------------------------------------------------------------ main
def write_replay(pid, worker, scenario, violation, minimise=True):
  os.makedirs(REPLAYS, exist_ok=True)
  original = copy.deepcopy(scenario)
  m = None
  if minimise and violation["kind"] not in ("hang", "abort"):
    m = Minimizer(worker, copy.deepcopy(scenario), violation)
    scenario = m.run()
  r = worker.call({"scenario": dict(scenario, trace=1)}, 60.0)
  vs = r.get("violations") or [violation]
  data = {
      "property": pid,
      "seed": original.get("seed"),
      "violation": vs[0],
      "log": r.get("log"),
      "minimiser_runs": m.runs if m else 0,
      "operations": sum(len(c["ops"]) for c in scenario["clients"]),
      "operations_before": sum(len(c["ops"]) for c in original["clients"]),
      "scenario": scenario,
      "original_scenario": original,
      "trace": (r.get("trace") or [])[-400:],
  }
  name = f"{pid}-{original.get('seed', 0):x}.json"
  path = os.path.join(REPLAYS, name)
  with open(path, "w") as f:
    json.dump(data, f, indent=1)
  return path, data


def replay(path):
  with open(path) as f:
    data = json.load(f)
  w = Worker()
  sc = {k: v for k, v in data["scenario"].items() if k != "want_schedule"}
  r = w.call({"scenario": dict(sc, trace=1)}, RUN_TIMEOUT)
  w.stop()
  if "died" in r:
    r["violations"] = [{"kind": r["died"], "what": "", "detail": ""}]
  if "harness_error" in r:
    print(r["harness_error"])
    return 2
  for line in r.get("trace") or []:
    print(line)
  for v in r["violations"]:
    print(json.dumps(v))
  same = bool(r["violations"]) and (
      r["violations"][0]["kind"] == data["violation"]["kind"])
  exact = same and r.get("log") == data["log"]
  print(f"reproduced={same} identical_execution={exact}")
  if same:
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
  return 0


def load_known():
  if not os.path.exists(KNOWN):
    return {"findings": [], "fixed": []}
  with open(KNOWN) as f:
    return json.load(f)


def run_check(pid, tier, seed, runs=None, cap=None, start=0, workers=None):
  from vsim import gen  # pylint: disable=import-outside-toplevel
  t0 = time.monotonic()
  runs = runs or (QUICK.get(pid, QUICK_DEFAULT) if tier == "quick" else
                  1000000)
  cap = cap or (QUICK_CAP if tier == "quick" else THOROUGH_CAP)
  workers = workers or max(2, min(8, os.cpu_count() or 2))
  deadline = t0 + cap
  lock = threading.Lock()
  state = {"next": start, "stop": False}
  results = []
  found = []
  foreign = []
  errors = []
  kinds = KINDS[pid]

  def loop():
    w = Worker()
    try:
      while True:
        with lock:
          if (state["stop"] or state["next"] >= start + runs or
              time.monotonic() > deadline):
            return
          n = state["next"]
          state["next"] += 1
        s = gen.scenario_seed(seed, pid, n)
        r = call_confirmed(w, {"pid": pid, "seed": s, "n": n})
        with lock:
          if "harness_error" in r or "died" in r:
            errors.append((n, s, r))
            if len(errors) > 20:
              state["stop"] = True
            continue
          results.append(r)
          for v in r["violations"][:1]:
            if v["kind"] in kinds:
              found.append((n, s, v))
              state["stop"] = True
            else:
              foreign.append((n, s, v))
    except ImportFailed as e:
      with lock:
        errors.append((-1, 0, {"harness_error": f"import failed: {e}"}))
        state["stop"] = True
    finally:
      w.stop()

  ts = [threading.Thread(target=loop) for _ in range(workers)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  search_s = time.monotonic() - t0

  w = Worker()
  determinism = {"pairs": 0, "differences": 0}
  known_lines = []
  code = 0
  replay_path = None
  violation = None
  try:
    if found:
      found.sort(key=lambda x: x[0])
      n, s, v = found[0]
      sc = json.loads(json.dumps(gen.generate(pid, s)))
      replay_path, data = write_replay(pid, w, sc, v)
      violation = data["violation"]
      code = 1
    else:
      # The same seeds again, in another process: identical executions.
      good = [r for r in sorted(results, key=lambda r: r["n"]) if r["log"]]
      for r in good[:6]:
        s = gen.scenario_seed(seed, pid, r["n"])
        r2 = w.call({"pid": pid, "seed": s, "n": r["n"]})
        determinism["pairs"] += 1
        if r2.get("log") != r["log"]:
          determinism["differences"] += 1
      for k in load_known()["findings"]:
        if pid not in k["properties"]:
          continue
        r = w.call({"scenario": k["scenario"]})
        if k["id"] in r.get("known", []):
          known_lines.append(
              f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        vs = [v for v in r.get("violations", []) if v["kind"] in kinds]
        if vs:
          replay_path, data = write_replay(pid, w, k["scenario"], vs[0])
          violation, code = data["violation"], 1
  except ImportFailed as e:
    errors.append((-1, 0, {"harness_error": f"import failed: {e}"}))
  finally:
    w.stop()

  evidence = summarize(pid, tier, seed, results, found, foreign, errors,
                       determinism, search_s, workers, start)
  evidence["wall_s"] = round(time.monotonic() - t0, 2)
  if violation is not None:
    evidence["coverage"]["violation"] = violation
    evidence["coverage"]["replay"] = replay_path
  evidence["coverage"]["known_findings"] = known_lines
  os.makedirs(EVIDENCE, exist_ok=True)
  tmp = os.path.join(EVIDENCE, f".{pid}.tmp")
  with open(tmp, "w") as f:
    json.dump(evidence, f, indent=1)
  os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))

  for line in known_lines:
    print(line)
  c = evidence["coverage"]
  print(f"{pid} {tier} seed={seed}: {c['evaluations']} runs "
        f"({c['runs_per_hour']}/h), {c['distinct_nontrivial']} distinct "
        f"non-trivial, {sum(c['faults_injected'].values())} faults, "
        f"{c['commits_checked']} commits checked, {search_s:.0f}s")
  for n, s, v in foreign[:3]:
    print(f"note: run {n} (seed {s}) broke another property: {v['kind']}: "
          f"{v['what']}: {v['detail'][:200]}".replace("\n", " "))
  for n, s, r in errors[:3]:
    print(f"harness error in run {n} (seed {s}): "
          f"{r.get('harness_error', r)}", file=sys.stderr)
  if determinism["differences"]:
    print(f"warning: {determinism['differences']} of {determinism['pairs']} "
          "repeated runs differ", file=sys.stderr)
  if code == 1:
    print(f"{violation['kind']}: {violation['what']}: "
          f"{violation['detail'][:600]}".replace("\n", " "))
    print(f"VIOLATION property={pid} replay={replay_path}")
    return 1
  if errors and len(errors) > max(5, len(results) // 50):
    return 2
  if not results:
    return 2
  return 0


def summarize(pid, tier, seed, results, found, foreign, errors, determinism,
              search_s, workers, start):
  fired = collections.Counter()
  probes = collections.Counter()
  ops = collections.Counter()
  sites = set()
  scheds, logs, shapes = set(), set(), set()
  nontrivial = set()
  for r in results:
    fired.update(r["fired"])
    probes.update(r["probes"])
    ops.update(r["results"])
    sites.update(r["sites"])
    logs.add(r["log"])
    shapes.add(r["shape"])
    if r["switches"]:
      scheds.add(r["sched"])
    if r["commits"] >= 1 or r["fired"]:
      nontrivial.add(r["log"])
  n = len(results)
  samples = [{k: r[k] for k in ("n", "log", "steps", "switches", "fired",
                                "sites", "results", "commits", "sim_s")}
             for r in sorted(results, key=lambda r: r["n"])[:3]]
  return {
      "property": pid,
      "tier": tier,
      "seed": seed,
      "level": "exploration",
      "coverage": {
          "evaluations": n,
          "distinct_nontrivial": len(nontrivial),
          "rule": "one evaluation is one simulated execution of a generated "
                  "scenario (operations, schedule, faults) derived from "
                  "VERIF_SEED, property and run number; distinct by the hash "
                  "of its full event log; non-trivial when at least one commit "
                  "was checked or one fault fired",
          "samples": samples,
          "runs_per_hour": int(n / max(search_s, 0.001) * 3600),
          "first_run_number": start,
          "worker_processes": workers,
          "simulated_seconds": round(sum(r["sim_s"] for r in results), 1),
          "scheduling_points": sum(r["steps"] for r in results),
          "context_switches": sum(r["switches"] for r in results),
          "distinct_interleavings": len(scheds),
          "distinct_executions": len(logs),
          "distinct_final_states": len(shapes),
          "faults_injected": dict(sorted(fired.items())),
          "fault_sites": sorted(sites),
          "runs_with_faults": sum(bool(r["fired"]) for r in results),
          "fault_free_runs": sum(not r["fired"] for r in results),
          "commits_checked": sum(r["commits"] for r in results),
          "ray_worker_processes": sum(r["workers"] for r in results),
          "operations": dict(sorted(ops.items())),
          "probes": dict(sorted(probes.items())),
          "determinism_recheck": determinism,
          "violating_runs": len(found),
          "runs_breaking_other_properties": [
              {"n": x[0], "seed": x[1], "kind": x[2]["kind"],
               "what": x[2]["what"]} for x in foreign[:20]],
          "harness_errors": len(errors),
          "real_components": [
              "space (all of it, from /repo/python/src)", "pyarrow and Parquet",
              "ArrayRecord", "protobuf", "substrait", "pyroaring",
              "local file system (tmpfs)"],
          "stubbed_components": [
              "Ray (tasks, actors, object store, datasets: a scheduler-driven "
              "stand-in with separate crashable worker processes)",
              "clock, sleep, uuid4", "failing/torn I/O"],
      },
      "assumptions": [
          "process crashes keep completed writes (no power loss model)",
          "commit steps of concurrent writers are serialised, as the code "
          "documents a single writer at a time in the commit step",
          "pyarrow and ArrayRecord run single threaded inside one I/O call"],
      "violations": 1 if found else 0,
  }
