"""C01-C05: particle swarm and differential evolution."""
import io
import os
import pickle

import numpy as np
from scipy.stats import binom

import seams
from core import (INJECTED, Invalid, Lib, SimCrash, Violation,
                  interrupt_at_line)
from util import (Objective, arr, chance, gen_obj, gen_space, in_space, need,
                  pick, same, snap)

REAL = ["mfpml.optimization.evolutionary_algorithms (PSO, DE)",
        "mfpml.problems.functions.FunctionWrapper", "numpy"]


def gen_alg(r):
    if chance(r, 0.5):
        a = {"alg": "PSO", "pop": pick(r, 1, 2, 3, 4, 5, 7, 10, 16, 25),
             "gen": pick(r, 1, 1, 2, 3, 4, 5, 8, 13)}
        if chance(r, 0.6):
            a["kw"] = {"cognition_rate": pick(r, 0.0, 0.5, 1.5, 2.5, 4.0),
                       "social_rate": pick(r, 0.0, 0.5, 1.5, 2.5, 4.0),
                       "weight": pick(r, 0.0, 0.4, 0.8, 1.2),
                       "max_velocity_rate": pick(r, 0.01, 0.2, 1.0, 3.0)}
        else:
            a["kw"] = {}
    else:
        a = {"alg": "DE", "pop": pick(r, 4, 5, 6, 7, 10, 16, 23),
             "gen": pick(r, 1, 1, 2, 3, 4, 5, 8, 13)}
        a["kw"] = {"strategy": pick(r, "DE/rand/1/bin", "DE/best/1/bin")}
        if chance(r, 0.5):
            a["kw"]["step_size"] = pick(r, 0.0, 0.1, 0.5, 0.9, 2.0)
            a["kw"]["crossover_rate"] = pick(r, 0.0, 0.1, 0.5, 0.9, 1.0)
    return a


def make(lib, a):
    return getattr(lib, a["alg"])(num_pop=a["pop"], num_gen=a["gen"],
                                  **a["kw"])


def gen_stop(r, o):
    if chance(r, 0.5):
        return None
    k = pick(r, "always", "never", "mid", "mid", "mid", "zero")
    if k == "always":
        return 1e300
    if k == "never":
        return -1e300
    if k == "zero":
        return 0.0
    return o["off"] + o["scale"] * pick(r, 0.01, 0.05, 0.1, 0.3, 0.5, -0.5,
                                        -10.9, 1.0)


def gen_run(r, nonfinite=True):
    d = pick(r, 1, 1, 2, 2, 3, 4, 6)
    o = gen_obj(r, nonfinite)
    run = {"dim": d, "space": gen_space(r, d), "obj": o,
           "stop": gen_stop(r, o), "np": r.randrange(2 ** 31)}
    if chance(r, 0.15):
        run["print"] = True
    if chance(r, 0.2):
        run["args"] = [round(r.uniform(-2, 2), 2)
                       for _ in range(pick(r, 1, 2))]
    if chance(r, 0.25):
        run["int_space"] = True
        run["space"] = [[int(np.floor(lo)), int(np.floor(lo)) + pick(
            r, 1, 3, 10)] for lo, hi in run["space"]]
    if chance(r, 0.15):         # a design space in single precision
        sp = np.array(run["space"], dtype=np.float32).astype(float)
        if np.all(sp[:, 1] - sp[:, 0] > 1e-5 * np.abs(sp).max(axis=1)):
            run["dtype"] = "float32"
            run["space"] = sp.tolist()
            run.pop("int_space", None)
    elif run.get("int_space") and chance(r, 0.5) and \
            np.abs(run["space"]).max() < 30000:
        run["dtype"] = "int16"
    return run


def gen_one(r):
    return {"alg": gen_alg(r), "run": gen_run(r),
            "extreme": pick(r, 0.0, 0.0, 0.02, 0.2, 0.7)}


def space_of(run):
    return np.array(run["space"], dtype=run.get("dtype") or (
        int if run.get("int_space") else float))


def call(opt, obj, run, space=None, **kw):
    k = {}
    if run.get("print"):
        k["print_info"] = True
    if run.get("args"):
        k["args"] = tuple(run["args"])
    if run.get("stop") is not None:
        k["stopping_error"] = run["stop"]
    k.update(kw)
    return opt.run_optimizer(obj, run["dim"],
                             space_of(run) if space is None else space, **k)


def inf_nan(y):
    y = np.array(y, dtype=float)
    y[np.isnan(y)] = np.inf
    return y


class One:
    """result of a single normal run"""

    def __init__(self, scn, c, lib=None):
        lib = lib or Lib()
        run = scn["run"]
        a = scn["alg"]
        c.rng_mode = {"extreme": scn.get("extreme", 0.0)}
        seams.set_global_state(seams.seed_state(run["np"]))
        self.obj = Objective(c, run["obj"], run["space"])
        opt = make(lib, a)
        self.out = call(opt, self.obj, run)
        self.X, self.Y = self.obj.rows()
        self.Yi = inf_nan(self.Y)
        self.pop = a["pop"]
        self.G = len(self.Y) // self.pop - 1
        need(isinstance(self.out, tuple) and len(self.out) == 3,
             "result-shape", "run_optimizer must return three values")
        self.res, self.by, self.bx = self.out
        c.log("result", arr(self.by), arr(self.bx))
        if run["stop"] is not None and self.G < a["gen"]:
            c.probe("stopped-early")
        c.probe("generations", max(self.G, 0))


def check_best(o, c, run):
    need(len(o.Y) >= o.pop, "no-evaluations", "")
    m = float(np.min(o.Yi))
    by = arr(o.by).ravel()
    bx = arr(o.bx).ravel()
    need(by.size == 1 and bx.size == run["dim"], "result-shape",
         f"best_y {by.shape} best_x {bx.shape}")
    need(by[0] == m, "best-not-lowest",
         f"reported {by[0]!r}, lowest evaluated {m!r}")
    hit = [i for i in range(len(o.Y))
           if o.Yi[i] == m and np.array_equal(o.X[i], bx)]
    need(hit, "best-point-not-evaluated-there",
         f"{bx} was never answered with {m!r}")
    rx, ry = arr(o.res["best_x"]).ravel(), arr(o.res["best_y"]).ravel()
    need(np.array_equal(ry, by) and np.array_equal(rx, bx),
         "record-disagrees-with-tuple", f"{ry} {by} {rx} {bx}")
    check_history(o, o.res, o.G, run)


def check_history(o, res, upto, run, cls="history"):
    hist = arr(res["best_y_historical"])
    histx = arr(res["best_x_historical"])
    need(hist.shape[0] >= upto + 1 and histx.shape[0] >= upto + 1,
         cls + "-too-short", f"{hist.shape} for {upto} generations")
    hist = hist.reshape(hist.shape[0], -1)[:, 0]
    for g in range(upto + 1):
        n = (g + 1) * o.pop
        m = float(np.min(o.Yi[:n]))
        need(hist[g] == m, cls + "-wrong-value",
             f"generation {g}: recorded {hist[g]!r}, true best {m!r}")
        if g:
            need(hist[g] <= hist[g - 1], cls + "-increases", f"at {g}")
        row = histx[g].ravel()
        ok = any(o.Yi[i] == m and np.array_equal(o.X[i], row)
                 for i in range(n))
        need(ok, cls + "-wrong-point",
             f"generation {g}: {row} was not answered with {m!r}")


def check_records(o, res, upto, alg, run, cls="record"):
    S = arr(res["all_samples"])
    R = arr(res["all_responses"])
    pop, d = o.pop, run["dim"]
    need(S.shape[0] >= upto + 1 and S.shape[1:] == (pop, d),
         cls + "-shape", str(S.shape))
    R = R.reshape(R.shape[0], -1)
    need(R.shape[0] >= upto + 1 and R.shape[1] == pop, cls + "-shape",
         str(R.shape))
    Ri = inf_nan(R)
    for g in range(upto + 1):
        ex = o.X[g * pop:(g + 1) * pop]
        ey = o.Yi[g * pop:(g + 1) * pop]
        if alg == "PSO" or g == 0:
            need(np.array_equal(S[g], ex), cls + "-points-differ",
                 f"generation {g}")
            need(np.array_equal(Ri[g], ey), cls + "-values-differ",
                 f"generation {g}")
            continue
        for i in range(pop):
            keep = np.array_equal(S[g, i], S[g - 1, i]) and \
                Ri[g, i] == Ri[g - 1, i]
            took = np.array_equal(S[g, i], ex[i]) and Ri[g, i] == ey[i]
            need(keep or took, cls + "-foreign-individual",
                 f"generation {g} individual {i} is neither its parent nor "
                 f"its trial")
            if ey[i] < Ri[g - 1, i]:
                need(took, cls + "-better-trial-ignored",
                     f"generation {g} individual {i}")
            need(Ri[g, i] <= Ri[g - 1, i], cls + "-gets-worse",
                 f"generation {g} individual {i}")


class C01:
    id = "C01"
    runs = {"quick": 9000, "thorough": 300000}
    rule = ("one seeded run of PSO or DE on a generated objective (shapes, "
            "ties, NaN/inf answers, reused output buffers, noise, extra "
            "arguments), random stream with extreme legal draws injected; "
            "non-trivial: at least one generation after the initial one")
    real = REAL
    stub = ["objective (generated)", "random stream (seeded, buggified)"]

    @staticmethod
    def gen(r, tier, i):
        return gen_one(r)

    @staticmethod
    def run(scn, c):
        o = One(scn, c)
        check_best(o, c, scn["run"])
        c.nontrivial = o.G >= 1


class C02(C01):
    id = "C02"
    rule = C01.rule

    @staticmethod
    def gen(r, tier, i):
        s = gen_one(r)
        s["extreme"] = pick(r, 0.0, 0.02, 0.2, 0.7)
        return s

    @staticmethod
    def run(scn, c):
        o = One(scn, c)
        run, a = scn["run"], scn["alg"]
        for i in range(len(o.Y)):
            need(in_space(o.X[i], run["space"], run.get("dtype")),
                 "outside-design-space",
                 lambda: f"evaluation {i}: {o.X[i]} not in {run['space']}")
        n = len(o.Y)
        need(n % o.pop == 0, "budget", f"{n} evaluations, pop {o.pop}")
        exp = a["gen"]
        if run["stop"] is not None:
            for g in range(1, a["gen"] + 1):
                if (g + 1) * o.pop <= n and \
                        np.min(o.Yi[:(g + 1) * o.pop]) < run["stop"]:
                    exp = g
                    break
        need(o.G == exp, "budget" if run["stop"] is None else "stop-rule",
             f"{o.G} generations run, {exp} expected "
             f"(configured {a['gen']}, stop {run['stop']})")
        c.nontrivial = True


class C03(C01):
    id = "C03"

    @staticmethod
    def run(scn, c):
        o = One(scn, c)
        check_records(o, o.res, o.G, scn["alg"]["alg"], scn["run"])
        c.nontrivial = o.G >= 1


class C04:
    id = "C04"
    runs = {"quick": 6000, "thorough": 120000}
    rule = ("a history of 2-5 runs on one optimiser object (other objectives, "
            "dimensions, spaces, stop thresholds, runs aborted by a raising "
            "objective, a failing standard output or by an interrupt at an arbitrary source line), each "
            "completed run compared with a new optimiser fed the same random "
            "numbers; non-trivial: at least one run compared after an "
            "earlier run")
    real = REAL
    stub = C01.stub

    @staticmethod
    def gen(r, tier, i):
        ops = []
        for _ in range(pick(r, 2, 2, 3, 3, 4, 5)):
            run = gen_run(r)
            k = r.random()
            if k < 0.2:
                run["fault"] = {"at": "objective", "n": r.randrange(0, 4),
                                "do": pick(r, "raise", "interrupt")}
            elif k < 0.35:
                run["line"] = pick(r, r.randrange(0, 60), r.randrange(0, 600))
            elif k < 0.4:
                run["print"] = True
                run["fault"] = {"at": "stdout", "n": r.randrange(0, 8),
                                "do": pick(r, "full", "pipe", "closed")}
            ops.append(run)
        if chance(r, 0.4):          # same problem again
            b = dict(pick(r, *ops))
            b.pop("fault", None)
            b.pop("line", None)
            if chance(r, 0.5):
                b["np"] = r.randrange(2 ** 31)
            else:                   # same numbers, something else differs
                o = gen_run(r)
                for k in pick(r, ["obj"], ["obj"], ["stop"], ["args"],
                              ["obj", "stop"], []):
                    b.pop(k, None)
                    if k in o:
                        b[k] = o[k]
                if "stop" in b and b.get("stop") is not None:
                    b["stop"] = gen_stop(r, b["obj"])
            ops.append(b)
        return {"alg": gen_alg(r), "ops": ops, "faults": []}

    @staticmethod
    def run(scn, c):
        lib = Lib()
        a = scn["alg"]
        reused = make(lib, a)
        kept = []
        c.nontrivial = False
        done = 0
        for j, run in enumerate(scn["ops"]):
            got = C04.one(c, reused, run, True)
            if got[0] == "aborted":
                done += 1
                continue
            ref = C04.one(c, make(lib, a), run, False)
            need(same(got[1], ref[1]), "evaluates-other-points",
                 f"run {j} of the history")
            need(same(got[2], ref[2]), "reused-differs-from-new",
                 lambda: f"run {j}: {_diff(got[2], ref[2])}")
            kept.append((j, got[2], snap(got[2])))
            if done:
                c.nontrivial = True
            done += 1
        for j, res, was in kept:
            need(same(res, was), "earlier-results-altered",
                 lambda: f"results of run {j}: {_diff(res, was)}")

    @staticmethod
    def one(c, opt, run, faults):
        seams.set_global_state(seams.seed_state(run["np"]))
        obj = Objective(c, run["obj"], run["space"])
        c.plan([run["fault"]] if faults and run.get("fault") else [])
        try:
            if faults and run.get("line") is not None:
                with interrupt_at_line(run["line"]):
                    out = call(opt, obj, run)
            else:
                out = call(opt, obj, run)
        except INJECTED:
            return ("aborted",)
        finally:
            c.plan([])
        c.log("ran", len(obj.Y))
        return ("ok", obj.rows(), out)


def _diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return f"[{i}] " + _diff(x, y)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a or not same(a[k], b[k]):
                return f"['{k}']"
    return f"{str(a)[:150]} / {str(b)[:150]}"


# --------------------------------------------------------------------------
class C05:
    id = "C05"
    runs = {"quick": 6500, "thorough": 200000}
    rule = ("one or two processes running PSO/DE with step saving on a "
            "simulated disk; a crash, power loss, interrupt, full disk, "
            "failing or short write is placed at a chosen I/O operation, "
            "objective call or source line; non-trivial: a fault fired or "
            "at least two saves completed")
    real = REAL + ["pickle", "io.BufferedWriter"]
    stub = ["disk (simulated faults, crashes, power loss over a scratch "
            "directory)", "objective (generated)"]

    FILE = "step_results.pickle"

    @staticmethod
    def gen(r, tier, i):
        procs = []
        for _ in range(pick(r, 1, 1, 2, 2, 3)):
            a = gen_alg(r)
            a["gen"] = pick(r, 1, 2, 3, 4, 6)
            if chance(r, 0.3):
                a["pop"] = pick(r, 40, 120)
            run = gen_run(r)
            p = {"alg": a, "run": run, "bufsize": pick(r, 8192, 8192, 512)}
            k = r.random()
            n = pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 30)
            if k < 0.45:
                p["faults"] = [{"at": "io", "n": n,
                                "do": pick(r, "crash", "crash", "power",
                                           "power", "interrupt"),
                                "frac": pick(r, 0.0, 0.3, 0.9)}]
            elif k < 0.7:
                kind = pick(r, "write", "write", "write", "fsync", "replace",
                            "rename", "open", "close")
                do = pick(r, "eio", "enospc")
                if kind == "write":
                    do = pick(r, "eio", "enospc", "short", "full", "short")
                if kind == "open":
                    do = pick(r, "eacces", "enospc", "eio")
                f = {"at": "io:" + kind, "n": pick(r, 0, 1, 1, 2, 3, 5),
                     "do": do, "frac": pick(r, 0.0, 0.4, 0.9),
                     "bytes": pick(r, 0, 10, 700, 5000)}
                p["faults"] = [f]
                if chance(r, 0.3):
                    p["faults"].append(
                        {"at": "io", "n": n, "frac": 0.5,
                         "do": pick(r, "crash", "power", "eio")})
            elif k < 0.85:
                p["faults"] = [{"at": "objective",
                                "n": r.randrange(0, a["gen"] + 1),
                                "do": pick(r, "crash", "power", "raise",
                                           "interrupt")}]
            elif k < 0.93:
                p["faults"] = []
                p["line"] = r.randrange(0, 400)
            else:
                p["faults"] = []
            procs.append(p)
        return {"procs": procs}

    @staticmethod
    def run(scn, c):
        import disk as dk
        path = os.path.join(c.scratch, C05.FILE)
        prev = None         # checks a record from an earlier process
        c.nontrivial = False
        for j, p in enumerate(scn["procs"]):
            lib = Lib()
            d = c.disk = dk.Disk(c, c.scratch)
            d.names = {C05.FILE}    # others may carry process numbers
            c.opt["bufsize"] = p["bufsize"]
            a, run = p["alg"], p["run"]
            seams.set_global_state(seams.seed_state(run["np"]))
            state = {"G": -1}

            def on_call(o):
                # all saves of completed generations are finished here
                g = len(o.Y) // a["pop"] - 1
                if len(o.Y) % a["pop"] == 0 and g >= 1 and not d.dead:
                    C05.verify(c, path, [(o, g, a, run)], "silently-skipped",
                               f"process {j}: before generation {g + 1}")
                    c.probe("saves-completed")
                    c.nontrivial = True
            obj = Objective(c, run["obj"], run["space"], on_call)
            c.plan(p["faults"])
            ended = "ok"
            opt = make(lib, a)
            try:
                if p.get("line") is not None:
                    with interrupt_at_line(p["line"], SimCrash):
                        call(opt, obj, run, save_step_results=True)
                else:
                    call(opt, obj, run, save_step_results=True)
            except SimCrash:
                ended = "crash"
                d.dead = True
            except INJECTED:
                ended = "aborted"
            except OSError:
                if not (d.failed_writes or any(
                        k.split("@")[0] in ("eio", "enospc", "eacces")
                        for k in c.fired)):
                    raise
                ended = "io-error"
            fired = sum(1 for f in c.faults if f.get("used"))
            c.plan([])
            if fired:
                c.nontrivial = True
            c.log("process", j, ended)
            c.probe("ended-" + ended)
            in_obj = obj.begun > len(obj.calls)
            C05.release(d)
            if d.power:
                d.power_loss()
            c.disk = None
            g = len(obj.Y) // a["pop"] - 1
            cand = []
            if ended == "ok":
                cand = [(obj, g, a, run)]
            elif in_obj or g < 1:
                # no save was in progress
                if g >= 1:
                    cand = [(obj, g, a, run)]
                else:
                    cand = prev
            else:
                cand = [(obj, g, a, run)]
                if g >= 2:
                    cand.append((obj, g - 1, a, run))
                elif prev is not None:
                    cand += prev
                else:
                    cand = None         # first save ever was in progress
                    # fall through: anything may be there except a lie
            if cand is None:
                if g < 1:
                    continue
                # the first save was interrupted
                if os.path.exists(path):
                    try:
                        C05.load(path)
                    except Exception:
                        c.probe("first-save-torn")
                        os.remove(path)
                        continue
                    C05.verify(c, path, [(obj, g, a, run)], "wrong-record",
                               "first save")
                    prev = [(obj, g, a, run)]
                continue
            C05.verify(c, path, cand, "lost-or-torn",
                       f"after process {j} ended by {ended}")
            prev = cand

    @staticmethod
    def release(d):
        for o in d.objs:
            try:
                o.close()
            except BaseException:
                pass
        d.objs = []

    @staticmethod
    def load(path):
        import disk as dk
        with dk.R["open"](path, "rb") as f:
            data = f.read()
        b = io.BytesIO(data)
        rec = pickle.load(b)
        if not isinstance(rec, dict):
            raise ValueError("not a record")
        return rec

    @staticmethod
    def verify(c, path, cands, cls, where):
        try:
            rec = C05.load(path)
        except FileNotFoundError:
            raise Violation("checkpoint-" + cls, where + ": no checkpoint")
        except Exception as e:
            raise Violation("checkpoint-" + cls,
                            where + f": not loadable ({type(e).__name__})")
        why = []
        for obj, g, a, run in cands:
            class V:
                pass
            V.X, V.Y = obj.rows()
            V.Yi = inf_nan(V.Y)
            V.pop = a["pop"]
            try:
                for k in ("best_x_historical", "best_y_historical",
                          "all_samples", "all_responses"):
                    need(k in rec, "missing-key", k)
                check_history(V, rec, g, run)
                check_records(V, rec, g, a["alg"], run)
                return g
            except Violation as v:
                why.append(f"not generation {g}: {v}")
            except (ValueError, IndexError, TypeError) as v:
                why.append(f"not generation {g}: malformed {v}")
        raise Violation("checkpoint-" + cls, where + ": " + "; ".join(why))


# --------------------------------------------------------------------------
class C28:
    id = "C28"
    runs = {"quick": 9000, "thorough": 200000}
    rule = ("one seeded run (after up to two others on the same optimiser, "
            "possibly failed) with objectives full of ties, NaN and infinite "
            "answers and extreme random draws; every move is compared with "
            "the documented rule computed from the evaluation log; "
            "non-trivial: at least one move whose outcome is determined")
    real = REAL
    stub = ["objective (generated)", "random stream (seeded, buggified)"]

    @staticmethod
    def gen(r, tier, i):
        s = gen_one(r)
        s["run"]["obj"].pop("noisy", None)
        if s["alg"]["alg"] == "DE" and chance(r, 0.03):
            s["alg"]["pop"] = pick(r, 6, 8, 9)      # a long look at the draws
            s["alg"]["gen"] = pick(r, 40, 60)
            s["alg"]["kw"].update(step_size=0.7, crossover_rate=1.0)
            s["run"].update(stop=None)
            s["extreme"] = 0.0
        s["run"].pop("dtype", None)
        s["before"] = []
        for _ in range(pick(r, 0, 0, 1, 2)):
            u = gen_run(r)
            if chance(r, 0.5):
                u["fail"] = pick(r, 0, 1, 2)
            s["before"].append(u)
        return s

    @staticmethod
    def run(scn, c):
        lib = Lib()
        a = scn["alg"]
        opt = make(lib, a)
        for u in scn["before"]:
            seams.set_global_state(seams.seed_state(u["np"]))
            obj = Objective(c, u["obj"], u["space"])
            c.groups.clear()
            c.plan([{"at": "objective", "n": u["fail"], "do": "raise"}]
                   if "fail" in u else [])
            try:
                call(opt, obj, u)
            except INJECTED:
                c.probe("earlier-run-failed")
        c.plan([])
        run = scn["run"]
        c.rng_mode = {"extreme": scn.get("extreme", 0.0)}
        seams.set_global_state(seams.seed_state(run["np"]))
        obj = Objective(c, run["obj"], run["space"])
        call(opt, obj, run)
        X, Y = obj.rows()
        pop = a["pop"]
        n = len(Y) // pop
        X = X[:n * pop].reshape(n, pop, -1)
        Y = inf_nan(Y[:n * pop]).reshape(n, pop)
        sp = arr(run["space"])
        c.determined = 0
        if a["alg"] == "PSO":
            C28.pso(c, a["kw"], X, Y, sp)
        else:
            C28.de(c, a["kw"], X, Y, sp, scn.get("extreme"))
        c.nontrivial = c.determined > 0
        c.probe("moves-checked", c.determined)

    @staticmethod
    def pso(c, kw, X, Y, sp):
        w = kw.get("weight", 0.8)
        c1, c2 = kw.get("cognition_rate", 1.5), kw.get("social_rate", 1.5)
        vm = (sp[:, 1] - sp[:, 0]) * kw.get("max_velocity_rate", 0.2)
        n, pop, d = X.shape
        tol = 1e-9 * (np.abs(sp).max(axis=1) + vm)
        # velocity after a move, known per component or nan
        V = np.zeros((pop, d)) if w == 0.0 else np.full((pop, d), np.nan)
        for g in range(n - 1):
            m = Y[:g + 1].min()
            gb = X[:g + 1][Y[:g + 1] == m]              # ties: any of them
            for k in range(pop):
                own = Y[:g + 1, k]
                pb = X[:g + 1, k][own == own.min()]
                x, nx = X[g, k], X[g + 1, k]
                for j in range(d):
                    v = V[k, j]
                    inside = sp[j, 0] + vm[j] + tol[j] < x[j] < \
                        sp[j, 1] - vm[j] - tol[j]
                    if np.isnan(v):
                        if inside:      # no move can leave the box
                            need(abs(nx[j] - x[j]) <= vm[j] + tol[j],
                                 "faster-than-allowed",
                                 lambda: f"generation {g + 1} particle {k} "
                                 f"{nx[j] - x[j]} limit {vm[j]}")
                            if g == 0:
                                C28.first(kw, x[j], nx[j], vm[j], tol[j],
                                          pb[:, j], gb[:, j], w, c1, c2, k)
                            V[k, j] = nx[j] - x[j]
                        continue
                    b = np.unique(pb[:, j])
                    s = np.unique(gb[:, j])
                    new = np.clip((w * v + c1 * (b[:, None] - x[j])
                                   + c2 * (s[None, :] - x[j])).ravel(),
                                  -vm[j], vm[j])
                    t = x[j] + new
                    e = tol[j] * (1 + w + c1 + c2)
                    hit = np.abs(t - nx[j]) <= e
                    out = (t < sp[j, 0] + e) | (t > sp[j, 1] - e)
                    need(np.any(hit | out), "not-the-documented-move",
                         lambda: f"PSO generation {g + 1} particle {k} "
                         f"component {j}: {nx[j]}, by rule {t}")
                    if not np.any(out):
                        c.determined += 1
                        V[k, j] = nx[j] - x[j]
                    elif len(t) == 1:
                        V[k, j] = new[0]
                    else:
                        V[k, j] = np.nan

    @staticmethod
    def first(kw, x, nx, vm, tol, b, s, w, c1, c2, k):
        """the first step starts from a velocity within the limit"""
        lo, hi = np.inf, -np.inf
        for p in b:
            for q in s:
                u = c1 * (p - x) + c2 * (q - x)
                lo = min(lo, max(-vm, u - w * vm))
                hi = max(hi, min(vm, u + w * vm))
        lo, hi = min(max(lo, -vm), vm), max(min(hi, vm), -vm)
        e = tol * (1 + w + c1 + c2)
        need(lo - e <= nx - x <= hi + e, "not-the-documented-move",
             lambda: f"PSO first move of particle {k}: {nx - x} not in "
             f"[{lo}, {hi}]")

    @staticmethod
    def de(c, kw, X, Y, sp, extreme):
        F = kw.get("step_size", 0.5)
        cr = kw.get("crossover_rate", 0.5)
        best = kw.get("strategy", "DE/rand/1/bin") == "DE/best/1/bin"
        n, pop, d = X.shape
        tol = 1e-9 * np.abs(sp).max(axis=1)
        P, Q = X[0].copy(), Y[0].copy()
        distinct = np.zeros(0, bool)
        pair = ~np.eye(pop - 1, dtype=bool)
        for g in range(n - 1):
            U, f = X[g + 1], Y[g + 1]
            m = Y[:g + 1].min()
            gb = np.unique(X[:g + 1][Y[:g + 1] == m], axis=0)
            for k in range(pop):
                oth = np.delete(P, k, axis=0)
                D = F * (oth[:, None, :] - oth[None, :, :]).reshape(-1, d)
                base = gb if best else oth
                ok = good = False
                for i, b in enumerate(base):
                    v = b + D
                    out = (v < sp[:, 0] + tol) | (v > sp[:, 1] - tol)
                    mut = (np.abs(v - U[k]) <= tol) | out
                    ind = np.abs(P[k] - U[k]) <= tol
                    fine = np.all(mut | ind, axis=1) & np.any(mut, axis=1)
                    if cr == 1.0:
                        fine &= np.all(mut, axis=1)
                    elif cr == 0.0:
                        fine &= np.sum(~ind) <= 1
                    ok = ok or bool(np.any(fine))
                    use = pair.copy()
                    if not best:
                        use[i, :] = use[:, i] = False
                    good = good or bool(np.any(fine & use.ravel()))
                    if good:
                        break
                distinct = np.append(distinct, good)
                need(ok, "not-a-documented-trial",
                     lambda: f"DE generation {g + 1} individual {k}: {U[k]} "
                     f"from {P[k]}")
                c.determined += 1
            take = f < Q
            P = np.where(take[:, None], U, P)
            Q = np.where(take, f, Q)
        # repeated donors are rare accidents: a draw without repetition that
        # holds both the individual and the neighbour it is replaced by
        if not extreme and pop >= 4:
            N, bad = len(distinct), int(np.sum(~distinct))
            p = min(1.0, (2.0 if best else 6.0) / (pop * (pop - 1)))
            c.probe("donors-checked")
            if N >= 100:
                c.probe("donors-checked-many")
            need(bad < 3 or binom.sf(bad - 1, N, p) > 1e-10,
                 "donors-not-distinct", lambda: f"{bad} of {N} trials, "
                 f"{p * N} expected at most")


PROPS = [C01, C02, C03, C04, C05, C28]
