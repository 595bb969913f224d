"""Driver: seeded batches, minimisation, replay, evidence.

  run.py check <property> [--tier quick|thorough] [--seed N] [--workers N]
  run.py replay <file>
  run.py digest <property> --runs N      (event-log digests, for self tests)
"""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1"}
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def _reexec():
    need = any(os.environ.get(k) != v for k, v in ENV.items())
    need = need or "PYTHONHASHSEED" not in os.environ
    exe = PY if os.path.exists(PY) else sys.executable
    if need or os.path.realpath(sys.executable) != os.path.realpath(exe):
        if os.environ.get("VERIF_REEXEC"):
            return
        e = dict(os.environ, **ENV)
        e.setdefault("PYTHONHASHSEED", "0")
        e["VERIF_REEXEC"] = "1"
        e["PYTHONPATH"] = HERE
        if "MPLCONFIGDIR" not in e:
            e["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
        os.execve(exe, [exe, "-W", "ignore"] + sys.argv, e)


if __name__ == "__main__":
    _reexec()

import argparse            # noqa: E402
import copy                # noqa: E402
import hashlib             # noqa: E402
import json                # noqa: E402
import multiprocessing     # noqa: E402
import queue               # noqa: E402
import random              # noqa: E402
import shutil              # noqa: E402
import signal              # noqa: E402
import subprocess          # noqa: E402
import tempfile            # noqa: E402
import traceback           # noqa: E402
from collections import Counter  # noqa: E402

sys.path.insert(0, HERE)
import core                # noqa: E402
import seams               # noqa: E402
from core import Ctx, HarnessError, Invalid, SimCrash, Violation  # noqa: E402

OUT = sys.stdout
KNOWN = os.path.join(ROOT, "known_findings.json")


def registry():
    props = {}
    for m in ("ea", "doe", "models", "bo", "iso", "share", "own",
              "extra", "multi"):
        if os.path.exists(os.path.join(HERE, m + ".py")):
            for p in __import__(m).PROPS:
                props[p.id] = p
    return props


def prepare():
    seams.install()
    core.install_finder()
    seams.silence()


_scratch = None


def scratch_dir():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="mfpmlsim-", dir=base)
    return _scratch


def drop_scratch():
    global _scratch
    if _scratch is not None:
        os.chdir("/")
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def derive(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


def scenario(prop, seed, tier, i):
    r = derive(seed, prop.id, i)
    scn = prop.gen(r, tier, i)
    scn["property"] = prop.id
    scn.setdefault("seed", r.randrange(2 ** 31))
    scn.setdefault("ambient", r.randrange(2 ** 31))
    scn.setdefault("entropy", r.randrange(2 ** 31))
    scn.setdefault("clock", r.choice(["tick", "tick", "jump", "frozen"]))
    return json.loads(json.dumps(scn))


class Hang(BaseException):
    """the run used up its processor time: no progress"""


CPU_LIMIT = 60.0            # a run normally takes well under a second


def _no_progress(*a):
    raise Hang()


def execute(prop, scn):
    """one simulated run: a pure function of the scenario and the code"""
    c = Ctx(scn)
    signal.signal(signal.SIGPROF, _no_progress)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return _execute(prop, scn, c)
    except Hang:
        # where the run is cut depends on the machine, what it did does not
        c.h = hashlib.sha256(b"no-progress")
        core.set_ctx(None)
        return result(c, {"status": "violation", "cls": "no-progress",
                          "msg": f"the run did not end in {CPU_LIMIT:.0f} s "
                          "of processor time"})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _execute(prop, scn, c):
    core.set_ctx(None)
    sd = scratch_dir()
    wd = os.path.join(sd, "w")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.chdir(wd)
    c.scratch = wd
    c.nontrivial = True
    seams.reset_process_state(int(scn.get("ambient", 0)))
    out = {"status": "ok", "cls": None, "msg": None}
    core.set_ctx(c)
    try:
        prop.run(scn, c)
    except Violation as v:
        out.update(status="violation", cls=v.cls, msg=v.msg)
    except Invalid as e:
        out.update(status="invalid", msg=str(e))
    except SimCrash:
        out.update(status="error", msg=traceback.format_exc())
    except HarnessError as e:
        out.update(status="error", msg=str(e))
    except core.INJECTED as e:
        if core.through_mfpml(e):
            out.update(status="error",
                       msg="uncaught injected\n" + traceback.format_exc())
        else:
            out.update(status="error", msg=traceback.format_exc())
    except Exception as e:
        import numpy as np
        if isinstance(e, np.linalg.LinAlgError):
            c.probe("linalg-skip")
            c.nontrivial = False
            out.update(status="skip", msg="LinAlgError")
        elif core.through_mfpml(e):
            out.update(status="violation",
                       cls=f"unexpected-{type(e).__name__}",
                       msg=f"{e} in {core.where_in_mfpml(e)}")
        elif (isinstance(e, AttributeError)
              and type(getattr(e, "obj", None)).__module__.split(".")[0]
              == "mfpml" and not str(e.name).startswith("_")):
            # a caller reads the public results just like the harness does
            out.update(status="violation", cls="missing-attribute",
                       msg=str(e))
        else:
            out.update(status="error", msg=traceback.format_exc())
    finally:
        core.set_ctx(None)
        c.disk = None
    c.log("outcome", out["status"], out["cls"])
    return result(c, out)


def result(c, out):
    out.update(digest=c.digest(), fired=dict(c.fired), probes=dict(c.probes),
               seq=c.seq, clock=c.clock_advance, counts=dict(c.counts),
               sig=c.sig.hexdigest()[:16], sig_n=c.sig_n,
               switches=c.sched_switches if hasattr(c, "sched_switches")
               else 0,
               nontrivial=bool(c.nontrivial), trace=c.trace)
    return out


# -- minimisation ------------------------------------------------------------
def _paths(v, p=()):
    yield p, v
    if isinstance(v, dict):
        for k in v:
            yield from _paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, e in enumerate(v):
            yield from _paths(e, p + (i,))


def _get(v, p):
    for k in p:
        v = v[k]
    return v


def _with(v, p, new):
    v = copy.deepcopy(v)
    if not p:
        return new
    t = _get(v, p[:-1])
    t[p[-1]] = new
    return v


SHRINK_LISTS = {"ops", "faults", "slices", "procs", "sessions", "args",
                "parts", "queries"}
KEEP = {"property", "np", "seed", "ambient", "entropy", "sid", "seed_"}


def candidates(scn):
    # drop whole parts first
    for p, v in _paths(scn):
        if isinstance(v, list) and p and p[-1] in SHRINK_LISTS:
            n = len(v)
            size = n
            while size >= 1:
                for s in range(0, n, size):
                    yield _with(scn, p, v[:s] + v[s + size:])
                size //= 2
    # optional keys
    for p, v in _paths(scn):
        if isinstance(v, dict):
            for k in ("fault", "line", "noisy", "bad", "print", "args",
                      "int_space", "extreme", "clock"):
                if k in v and v[k]:
                    w = dict(v)
                    w.pop(k)
                    yield _with(scn, p, w)
    # numbers
    for p, v in _paths(scn):
        if not p or p[-1] in KEEP or isinstance(v, bool):
            continue
        if isinstance(v, int):
            for w in (0, 1, 2, v // 2, v - 1):
                if 0 <= w < v:
                    yield _with(scn, p, w)


def shrink(prop, scn, cls, budget_s):
    t0 = seams.REAL_PERF()
    best = scn
    improved = True
    tried = 0
    while improved and seams.REAL_PERF() - t0 < budget_s:
        improved = False
        for cand in candidates(best):
            if seams.REAL_PERF() - t0 > budget_s:
                break
            if len(json.dumps(cand)) > len(json.dumps(best)):
                continue
            tried += 1
            try:
                o = execute(prop, cand)
            except Exception:
                continue
            if o["status"] == "violation" and o["cls"] == cls:
                best = cand
                improved = True
                break
    return best, tried


# -- batch -------------------------------------------------------------------
def _worker(pid, seed, tier, ids, q, deadline):
    try:
        prepare()
        prop = registry()[pid]
        for i in ids:
            if seams.REAL_PERF() > deadline:
                q.put(("late", i, None))
                break
            scn = scenario(prop, seed, tier, i)
            o = execute(prop, scn)
            tr = o.pop("trace")
            if o["status"] in ("violation", "error"):
                o["trace"] = tr[-60:]
            q.put(("run", i, o))
            if o["cls"] == "no-progress":       # its threads may go on
                q.put(("end", None, None))
                drop_scratch()
                q.close()
                q.join_thread()
                os._exit(0)
        q.put(("end", None, None))
    except BaseException:
        q.put(("crash", None, traceback.format_exc()))
    finally:
        drop_scratch()


def run_batch(pid, seed, tier, n, workers, cap_s, progress=None):
    mp = multiprocessing.get_context("fork")
    q = mp.Queue()
    t0 = seams.REAL_PERF()
    deadline = t0 + cap_s
    ps = []
    for w in range(workers):
        p = mp.Process(target=_worker, args=(
            pid, seed, tier, list(range(w, n, workers)), q, deadline),
            daemon=True)
        p.start()
        ps.append(p)
    res, errs, ended = {}, [], 0
    last = t0
    while ended < workers:
        try:
            kind, i, o = q.get(timeout=5)
        except queue.Empty:
            if seams.REAL_PERF() > deadline + 60 or all(
                    not p.is_alive() for p in ps):
                errs.append("workers stuck or died")
                break
            continue
        if kind == "run":
            res[i] = o
        elif kind == "late":
            pass
        elif kind == "end":
            ended += 1
        else:
            errs.append(o)
            ended += 1
    for p in ps:
        p.terminate() if p.is_alive() and errs else None
        p.join(10)
        if p.is_alive():
            p.kill()
    return res, errs, seams.REAL_PERF() - t0


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        k = json.load(f)
    return [e for e in k.get("findings", []) if e["property"] == pid]


def check(pid, tier, seed, workers, runs=None, cap=None):
    props = registry()
    prop = props[pid]
    n = runs or prop.runs[tier]
    cap = cap or (300 if tier == "quick" else 3000)
    res, errs, wall = run_batch(pid, seed, tier, n, workers, cap)
    bad = sorted(i for i in res if res[i]["status"] == "violation")
    broken = sorted(i for i in res if res[i]["status"] == "error")
    violations = 0
    known_hits = []
    code = 0
    lines = []
    if bad:
        seen = set()
        prepare()
        for i in bad:
            cls = res[i]["cls"]
            if cls in seen or len(seen) >= 3:
                continue
            seen.add(cls)
            scn = scenario(prop, seed, tier, i)
            if cls == "no-progress":
                small = scn
                path = write_replay(prop, scn, cls, seed, i, dict(res[i]))
                ok = confirm(path)
            else:
                small, tried = shrink(prop, scn, cls, 25 if tier == "quick"
                                      else 90)
                path = write_replay(prop, small, cls, seed, i)
                ok = confirm(path)
                if ok != "exact":
                    full = write_replay(prop, scn, cls, seed, i)
                    again = confirm(full)
                    if ok and not again:
                        write_replay(prop, small, cls, seed, i)
                    ok = again or ok
            if not ok:
                errs.append(f"run {i}: violation {cls} did not replay")
                continue
            violations += 1
            k = match_known(pid, small, cls)
            if k is not None:
                known_hits.append(k)
                violations -= 1
                continue
            lines.append(f"VIOLATION property={pid} replay={path}")
            lines.append(f"  class={cls} seed={seed} run={i} "
                         f"{res[i]['msg'][:400]}")
            if ok != "exact":
                lines.append("  the replay violates the property again but "
                             "its log differs: the code under test uses "
                             "something outside the simulation")
        drop_scratch()
    for k in known_hits:
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    minimum = max(1, n // 20)
    if violations:
        code = 1
    elif errs or broken or len(res) < minimum:
        code = 2
        for e in errs[:3]:
            lines.append("HARNESS-ERROR " + str(e)[-3000:])
        for i in broken[:3]:
            lines.append(f"HARNESS-ERROR run {i}: {res[i]['msg'][-3000:]}")
        if len(res) < minimum:
            lines.append(f"HARNESS-ERROR only {len(res)} of {n} runs done")
    write_evidence(prop, tier, seed, workers, res, n, wall, violations)
    print(f"{pid} tier={tier} seed={seed} runs={len(res)}/{n} "
          f"wall={wall:.1f}s exit={code}", file=OUT)
    for ln in lines:
        print(ln, file=OUT)
    OUT.flush()
    return code


def match_known(pid, scn, cls):
    for e in load_known(pid):
        if e.get("class") == cls and all(
                scn.get(k) == v for k, v in e.get("match", {}).items()):
            return e
    return None


def write_replay(prop, scn, cls, seed, i, o=None):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    o = o or execute(prop, scn)
    path = os.path.join(d, f"{prop.id}-s{seed}-r{i}.json")
    with open(path, "w") as f:
        json.dump({"property": prop.id, "class": cls, "message": o["msg"],
                   "digest": o["digest"], "verif_seed": seed, "run": i,
                   "scenario": scn, "fault_and_schedule_trace":
                   o["trace"][-80:]}, f, indent=1)
    return path


def confirm(path):
    """replay in a new process: "exact", "again" (other log) or None"""
    with open(path) as f:
        cls = json.load(f)["class"]
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "replay",
                        path], capture_output=True, text=True, timeout=300)
    if p.returncode != 1 or "VIOLATION" not in p.stdout:
        return None
    return "exact" if f"class={cls}" in p.stdout and \
        "digest=same" in p.stdout else "again"


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prepare()
    prop = registry()[rec["property"]]
    o = execute(prop, rec["scenario"])
    drop_scratch()
    if o["status"] == "violation":
        print(f"VIOLATION property={prop.id} replay={path}", file=OUT)
        same = "same" if o["digest"] == rec.get("digest") else "differs"
        print(f"  class={o['cls']} digest={same} {o['msg'][:600]}", file=OUT)
        OUT.flush()
        if o["cls"] == "no-progress":
            os._exit(1)
        return 1
    print(f"{prop.id}: {o['status']} {o['msg'] or ''}", file=OUT)
    OUT.flush()
    return 0 if o["status"] != "error" else 2


def write_evidence(prop, tier, seed, workers, res, n, wall, violations):
    fired, probes, counts = Counter(), Counter(), Counter()
    digests, sigs = set(), set()
    nontriv = 0
    clock = 0.0
    stat = Counter()
    dn = set()
    switches = 0
    for i in sorted(res):
        o = res[i]
        fired.update(o["fired"])
        probes.update(o["probes"])
        counts.update(o["counts"])
        digests.add(o["digest"])
        if o["sig_n"]:
            sigs.add(o["sig"])
        clock += o["clock"]
        stat[o["status"]] += 1
        switches += o["switches"]
        if o["nontrivial"] and o["status"] in ("ok", "violation"):
            nontriv += 1
            dn.add(o["digest"])
    samples = []
    for i in sorted(res)[:2]:
        samples.append({"run": i, "digest": res[i]["digest"],
                        "scenario": scenario(prop, seed, tier, i)})
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len(dn),
        "rule": prop.rule + "; distinct = different event-log digest",
        "samples": samples,
        "planned_runs": n,
        "outcomes": dict(stat),
        "runs_per_hour": int(len(res) / max(wall, 1e-6) * 3600),
        "verif_seeds_per_hour": round(3600 / max(wall, 1e-6), 1),
        "workers": workers,
        "simulated_time_s": round(clock, 3),
        "faults_fired": dict(sorted(fired.items())),
        "rare_conditions_reached": dict(sorted(probes.items())),
        "seam_operations": dict(sorted(counts.items())),
        "distinct_event_logs": len(digests),
        "distinct_fault_and_schedule_signatures": len(sigs),
        "context_switches": switches,
        "real_components": prop.real,
        "stubbed_components": prop.stub,
    }
    ev = {"property": prop.id, "tier": tier, "seed": seed,
          "level": "exploration", "coverage": cov,
          "assumptions": getattr(prop, "assumptions", []) or [
              "seeded sampling of runs: a clean batch is evidence, no proof"],
          "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "digest", "show"])
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int,
                    default=int(os.environ.get("VERIF_WORKERS", "0"))
                    or min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--cap", type=float, default=None)
    a = ap.parse_args()
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "digest":
        res, errs, wall = run_batch(a.what, a.seed, a.tier, a.runs or 50,
                                    a.workers, 3000)
        for i in sorted(res):
            print(i, res[i]["digest"], res[i]["status"], file=OUT)
        for e in errs:
            print("ERR", e, file=OUT)
        return 2 if errs else 0
    if a.cmd == "show":
        prop = registry()[a.what]
        prepare()
        scn = scenario(prop, a.seed, a.tier, a.runs or 0)
        o = execute(prop, scn)
        print(json.dumps(scn), file=OUT)
        print(json.dumps(o, indent=1), file=OUT)
        drop_scratch()
        return 0
    return check(a.what, a.tier, a.seed, a.workers, a.runs, a.cap)


if __name__ == "__main__":
    sys.exit(main())
