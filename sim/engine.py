"""Runs one property: worker loop, parent, minimiser, replay, evidence."""
import hashlib
import importlib
import json
import mmap
import os
import random
import selectors
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def prop_module(pid):
    mod = importlib.import_module("sim.props." + pid.lower())
    from . import bspec, sspec
    bspec.LONG[0] = sspec.LONG[0] = getattr(mod, "LONG", True)
    return mod


def rng_for(seed, pid, idx):
    return random.Random("%s/%s/%d" % (seed, pid, idx))


class Ctx(object):
    """What a property's run() reports into."""

    def __init__(self, inst, tier="quick"):
        self.inst = inst
        self.tier = tier
        self.counts = {}
        self.faults = {}
        self.distinct = set()
        self.probes = {}
        self.sim_ns = 0
        self.execs = 0
        self.log = None          # list while an execution is being recorded
        self.max_steps = 0

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def probe(self, key, n=1):
        self.probes[key] = self.probes.get(key, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def seen(self, *what):
        h = hashlib.blake2b(repr(what).encode(), digest_size=8).digest()
        self.distinct.add(struct.unpack("<Q", h)[0])

    def record(self, *what):
        if self.log is not None:
            self.log.append(what)

    def absorb(self, sim):
        """Account for a finished simulation."""
        self.execs += 1
        self.sim_ns += sim.now
        for k, n in sim.faults.items():
            self.fault(k, n)
        self.max_steps = max(self.max_steps, sim.total_steps)
        if self.log is not None:
            self.log.extend(sim.log)
            self.log.append(("sim", sim.now, sim.total_steps, sim.switches, sim.inter.hexdigest()))
        self.add("switches", sim.switches)
        self.add("preemptions", sim.preempted)


def setup_process():
    from . import kernel, repo
    kernel.install_locks()
    return repo.load()


def touches_repo(exc):
    from . import repo
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(repo.CODE_PREFIX):
            return True
        tb = tb.tb_next
    for e in (exc.__cause__, exc.__context__):
        if e is not None and e is not exc and touches_repo(e):
            return True
    return False


def execute(mod, scn, ctx):
    """Returns None or a violation dict."""
    from . import kernel, repo
    from .world import Violation
    try:
        mod.run(json.loads(json.dumps(scn)), ctx)     # exactly what a replay file would hold, nothing in it shared
        return None
    except Violation as v:
        return {"kind": v.kind, "detail": v.detail[:2000], "scenario": v.scenario if v.scenario is not None else scn}
    except kernel.Deadlock as e:
        return {"kind": "deadlock", "detail": str(e), "scenario": scn}
    except kernel.StepLimit as e:
        return {"kind": "hang", "detail": str(e), "scenario": scn}
    except repo.HarnessError:
        raise
    except Exception as e:
        if touches_repo(e):
            return {"kind": "crash", "detail": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:], "scenario": scn}
        raise


def execute_recorded(mod, scn, ctx):
    ctx.log = []
    try:
        v = execute(mod, scn, ctx)
        h = hashlib.blake2b(digest_size=12)
        for e in ctx.log:
            h.update(repr(e).encode())
        h.update(repr((v or {}).get("kind")).encode())
        return v, h.hexdigest(), ctx.log
    finally:
        ctx.log = None


# ---- worker ---------------------------------------------------------------------------------------------------------
def worker(pid, tier, seed, first, step, count, hbfile, deadline):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(3000)
    inst = setup_process()
    mod = prop_module(pid)
    ctx = Ctx(inst, tier)
    hb = mmap.mmap(os.open(hbfile, os.O_RDWR), 16)
    out = sys.stdout
    t0 = time.monotonic()
    runs = 0
    det = [0, 0]
    samples = []
    stopped = None
    i = first
    beat = 0
    while i < count:
        if time.monotonic() - t0 > deadline:
            stopped = "time"
            break
        beat += 1
        hb[0:16] = struct.pack("<qq", i, beat)
        try:
            scn = mod.gen(rng_for(seed, pid, i), tier, i)
            if len(samples) < 2 and i >= 2:
                samples.append(scn)
            det_check = (i // step) % 40 == 7
            v = execute(mod, scn, ctx) if not det_check else None
            if det_check:
                scn2 = json.loads(json.dumps(scn))
                v, h1, _ = execute_recorded(mod, scn, ctx)
                if v is None:
                    _, h2, _ = execute_recorded(mod, scn2, ctx)
                    det[0] += 1
                    det[1] += h1 == h2
        except Exception as e:
            out.write(json.dumps({"harness": "%s index %d: %s" % (pid, i, "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:])}) + "\n")
            out.flush()
            os._exit(0)
        runs += 1
        if v is not None:
            v["index"] = i
            out.write(json.dumps({"violation": v}) + "\n")
            out.flush()
            stopped = "violation"
            break
        i += step
    out.write(json.dumps({"done": {
        "runs": runs, "execs": ctx.execs, "counts": ctx.counts, "faults": ctx.faults, "probes": ctx.probes,
        "sim_ns": ctx.sim_ns, "distinct": ["%x" % d for d in list(ctx.distinct)[:400000]], "samples": samples,
        "det": det, "stopped": stopped, "max_steps": ctx.max_steps}}) + "\n")
    out.flush()
    os._exit(0)


def probe(pid, tier, seed, idx, limit):
    """Re-runs one index with every instruction counted; prints how it ended."""
    import faulthandler
    import threading
    inst = setup_process()
    from . import kernel, repo
    mod = prop_module(pid)
    ctx = Ctx(inst, tier)
    scn = mod.gen(rng_for(seed, pid, idx), tier, idx)
    res = probe_scenario(mod, scn, ctx, limit)
    print(json.dumps({"probe": res}))
    sys.stdout.flush()
    os._exit(0)


class _Count(BaseException):
    pass


def probe_scenario(mod, scn, ctx, limit):
    from . import kernel, repo
    n = [0]

    def local(frame, event, arg):
        n[0] += 1
        if n[0] > limit:
            print(json.dumps({"probe": {"kind": "hang", "detail": "more than %d lines executed in %s" % (
                limit, frame.f_code.co_qualname), "scenario": scn}}))
            sys.stdout.flush()
            os._exit(0)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(repo.CODE_PREFIX):
            return local
        return None
    kernel.EXTRA_TRACER = tracer
    sys.settrace(tracer)
    try:
        return execute(mod, scn, ctx)
    finally:
        sys.settrace(None)


# ---- minimiser ------------------------------------------------------------------------------------------------------
def generic_shrinks(x):
    """Yields smaller versions of a JSON value: lists with parts removed, then each child shrunk."""
    if isinstance(x, list) and x:
        n = len(x)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield x[:a] + x[a + size:]
            size //= 2


def walk_lists(x, path=()):
    if isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            for p in walk_lists(y, path + (i,)):
                yield p
    elif isinstance(x, dict):
        for k in sorted(x):
            for p in walk_lists(x[k], path + (k,)):
                yield p


def get_at(x, path):
    for p in path:
        x = x[p]
    return x


def set_at(x, path, v):
    y = json.loads(json.dumps(x))
    if not path:
        return v
    t = y
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return y


def minimise(mod, scn, kind, ctx, budget):
    """Greedy delta debugging over every list of the scenario plus the property's own shrinks; invalid candidates (the
    property's `valid` says no, or the harness cannot run them) are skipped."""
    t0 = time.monotonic()
    tried = 0
    best = scn
    improved = True

    def ok(c):
        try:
            if hasattr(mod, "valid") and not mod.valid(c):
                return None
            v = execute(mod, c, ctx)
        except Exception:
            return None
        if v is not None and v["kind"] == kind:
            return v
        return None

    while improved and time.monotonic() - t0 < budget:
        improved = False
        if hasattr(mod, "shrinks"):
            for c in mod.shrinks(best):
                if time.monotonic() - t0 > budget:
                    break
                tried += 1
                v = ok(c)
                if v:
                    best = v["scenario"]
                    improved = True
                    break
            if improved:
                continue
        for path in sorted(walk_lists(best), key=len):
            try:
                cur = get_at(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            for smaller in generic_shrinks(cur):
                if time.monotonic() - t0 > budget:
                    break
                tried += 1
                v = ok(set_at(best, path, smaller))
                if v:
                    best = v["scenario"]
                    improved = True
                    break
            if improved:
                break
    return best, tried


def shrink_main(pid, infile, outfile, budget):
    inst = setup_process()
    mod = prop_module(pid)
    ctx = Ctx(inst, "quick")
    rec = json.load(open(infile))
    best, tried = minimise(mod, rec["scenario"], rec["kind"], ctx, budget)
    v, h, log = execute_recorded(mod, best, ctx)
    if v is None or v["kind"] != rec["kind"]:
        best = rec["scenario"]
        v, h, log = execute_recorded(mod, best, ctx)
    if v is not None:
        rec.update(scenario=best, detail=v["detail"], log_hash=h, trace=[list(map(str, e)) for e in log[-200:]],
                   minimised={"candidates": tried, "from_bytes": len(json.dumps(rec["scenario"])), "to_bytes": len(json.dumps(best))})
    with open(outfile, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    os._exit(0)


def replay_main(path):
    rec = json.load(open(path))
    pid = rec["property"]
    inst = setup_process()
    mod = prop_module(pid)
    ctx = Ctx(inst, "quick")
    if rec["kind"] == "hang" and not rec.get("log_hash"):
        v = probe_scenario(mod, rec["scenario"], ctx, rec.get("limit", 3000000))
        h = None
    else:
        v, h, log = execute_recorded(mod, rec["scenario"], ctx)
    if v is None:
        print("REPLAY property=%s: the violation does not occur on this tree" % pid)
        os._exit(0)
    print("REPLAY property=%s kind=%s %s" % (pid, v["kind"], "identical execution" if h == rec.get("log_hash") else "execution differs from the recorded one"))
    print(v["detail"])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    os._exit(1)


# ---- parent ---------------------------------------------------------------------------------------------------------
def env_for_children(pycache):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = pycache
    env["PYTHONHASHSEED"] = env.get("VERIF_HASHSEED", "0")
    env["PYTHONWARNINGS"] = "ignore"
    env["PYTHONPATH"] = VERIF
    return env


def main_check(pid, tier, seed, workers=None, runs=None, quiet=False):
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _main_check(pid, tier, seed, workers, runs, quiet, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main_check(pid, tier, seed, workers, runs, quiet, t0, work):
    mod = prop_module(pid)
    env = env_for_children(os.path.join(work, "pyc"))
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    count = runs or int(os.environ.get("VERIF_RUNS", "0")) or mod.RUNS[tier]
    deadline = float(os.environ.get("VERIF_DEADLINE", "0")) or {"quick": 240.0, "thorough": 780.0}[tier]
    stuck_after = 25.0 if tier == "quick" else 60.0
    sel = selectors.DefaultSelector()
    procs = []

    def start(w, first):
        hb = os.path.join(work, "hb%d" % w)
        with open(hb, "wb") as f:
            f.write(struct.pack("<qq", first, 0))
        p = subprocess.Popen([PY, "-m", "sim.cli", "worker", pid, tier, str(seed), str(first), str(workers), str(count), hb, str(deadline - (time.monotonic() - t0))],
                             stdout=subprocess.PIPE, env=env, cwd=VERIF)
        st = {"p": p, "hb": hb, "buf": b"", "last": None, "since": time.monotonic(), "done": None, "w": w}
        procs.append(st)
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, st)

    for w in range(workers):
        start(w, w)
    violations = []
    harness = []
    results = []
    stuck = []
    live = workers

    def handle(line):
        m = json.loads(line)
        if "violation" in m:
            violations.append(m["violation"])
        elif "harness" in m:
            harness.append(m["harness"])
        elif "done" in m:
            results.append(m["done"])

    while sel.get_map():
        for key, _ in sel.select(timeout=1.0):
            st = key.data
            data = st["p"].stdout.read()
            if data is None:
                continue
            if not data:
                sel.unregister(st["p"].stdout)
                st["p"].wait()
                if st["buf"].strip():
                    handle(st["buf"])
                st["done"] = True
                continue
            st["buf"] += data
            while b"\n" in st["buf"]:
                line, st["buf"] = st["buf"].split(b"\n", 1)
                handle(line)
        now = time.monotonic()
        for st in procs:
            if st["done"]:
                continue
            with open(st["hb"], "rb") as f:
                cur = f.read(16)
            if cur != st["last"]:
                st["last"] = cur
                st["since"] = now
            elif now - st["since"] > stuck_after:
                st["p"].kill()
                stuck.append(struct.unpack("<qq", cur)[0])
                st["since"] = now + 1e9
        if violations or harness:
            # one witness is enough; stop the others shortly (give them a moment to report too)
            for st in procs:
                if not st["done"] and not st.get("stop"):
                    st["stop"] = True
                    st["p"].terminate()
    slow = 0
    for idx in stuck:
        res = run_probe(pid, tier, seed, idx, env)
        if res == "slow":
            slow += 1
        elif res is not None:
            res["index"] = idx
            violations.append(res)
    crashed = workers - len(results) - len(stuck) - (workers if (violations or harness) else 0)
    wall_search = time.monotonic() - t0
    code = 0
    if harness and not violations:
        for h in harness:
            sys.stderr.write("HARNESS ERROR " + h + "\n")
        code = 2
    elif crashed > 0:
        sys.stderr.write("HARNESS ERROR %d worker(s) of %s ended without a report\n" % (crashed, pid))
        code = 2
    out = {"violations": 0}
    if violations:
        v = min(violations, key=lambda v: v["index"])
        path = save_violation(pid, tier, seed, v, env, work)
        out["violations"] = len(violations)
        print("%s: %s" % (v["kind"], v["detail"].strip().splitlines()[-1] if v["detail"].strip() else ""))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    known = known_findings(pid, env)
    for line in known:
        print(line)
    write_evidence(pid, mod, tier, seed, results, out["violations"], time.monotonic() - t0, wall_search, slow, workers, count)
    sys.stdout.flush()
    return code


def run_probe(pid, tier, seed, idx, env):
    limit = 6000000
    try:
        r = subprocess.run([PY, "-m", "sim.cli", "probe", pid, tier, str(seed), str(idx), str(limit)], stdout=subprocess.PIPE,
                           env=env, cwd=VERIF, timeout=200)
    except subprocess.TimeoutExpired:
        return "slow"
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if "probe" in m:
            if m["probe"] is None:
                return "slow"
            if m["probe"]["kind"] == "hang":
                m["probe"]["limit"] = limit
            return m["probe"]
    return "slow"


def save_violation(pid, tier, seed, v, env, work):
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rec = {"property": pid, "kind": v["kind"], "detail": v["detail"], "seed": seed, "tier": tier, "index": v["index"],
           "scenario": v["scenario"]}
    if "limit" in v:
        rec["limit"] = v["limit"]
    h = hashlib.blake2b(json.dumps(rec, sort_keys=True).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    budget = float(os.environ.get("VERIF_SHRINK", "25"))
    if v["kind"] != "hang" and budget > 0:
        tmp_in = os.path.join(work, "v.json")
        shutil.copy(path, tmp_in)
        try:
            subprocess.run([PY, "-m", "sim.cli", "shrink", pid, tmp_in, path + ".tmp", str(budget)], env=env, cwd=VERIF, timeout=budget + 60,
                           stdout=subprocess.DEVNULL)
            if os.path.exists(path + ".tmp"):
                os.replace(path + ".tmp", path)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(path + ".tmp"):
            os.unlink(path + ".tmp")
    return path


def known_findings(pid, env):
    """Re-runs the listed findings of this property; one line for each that still fails."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    lines = []
    if not os.path.exists(path):
        return lines
    for line in open(path):
        line = line.strip()
        if not line or line.startswith("fixed:"):
            continue
        rec = json.loads(line)
        if rec["property"] != pid:
            continue
        f = os.path.join(VERIF, "findings", rec["replay"])
        r = subprocess.run([PY, "-m", "sim.cli", "replay", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF)
        if r.returncode == 1:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, rec["what"]))
    return lines


def write_evidence(pid, mod, tier, seed, results, nviol, wall, wall_search, slow, workers, count):
    def total(key):
        acc = {}
        for r in results:
            for k, n in r[key].items():
                acc[k] = acc.get(k, 0) + n
        return acc
    distinct = set()
    samples = []
    for r in results:
        distinct.update(r["distinct"])
        samples.extend(r["samples"])
    runs = sum(r["runs"] for r in results)
    execs = sum(r["execs"] for r in results)
    counts = total("counts")
    cov = {
        "evaluations": max(execs, runs),
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": [trim(s) for s in samples[:2]],
        "seeds": runs,
        "seeds_planned": count,
        "stopped_by_time": sum(1 for r in results if r["stopped"] == "time"),
        "runs_per_hour": int(3600.0 * max(execs, runs) / max(wall_search, 0.001)),
        "seeds_per_hour": int(3600.0 * runs / max(wall_search, 0.001)),
        "simulated_seconds": round(sum(r["sim_ns"] for r in results) / 1e9, 6),
        "faults_injected": total("faults"),
        "distinct_measure": mod.MEASURE,
        "counters": counts,
        "probes": total("probes"),
        "max_steps_in_one_run": max([r["max_steps"] for r in results] or [0]),
        "determinism": {"re_executed": sum(r["det"][0] for r in results), "identical": sum(r["det"][1] for r in results)},
        "workers": workers,
        "slow_runs_set_aside": slow,
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": nviol, "assumptions": mod.ASSUMPTIONS}
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def trim(s, limit=4000):
    t = json.dumps(s)
    return s if len(t) <= limit else t[:limit] + "..."
