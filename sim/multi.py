"""C33: several optimisations that save their steps in one folder."""
import os

import numpy as np

import disk as dk
import ea
import seams
from core import INJECTED, Lib, Scheduler, SimCrash, Violation
from ea import C05
from util import Objective, chance, need, pick, snap

REAL = ["mfpml.optimization.evolutionary_algorithms", "numpy", "pickle",
        "io.BufferedWriter", "threading (real threads, one runs at a time)"]


class SharedDisk(dk.Disk):
    """one disk, several processes (or one process with several threads)"""

    def __init__(self, c, root, threads):
        self.threads = threads
        self.gone = set()
        self.off = False
        super().__init__(c, root)

    @property
    def sid(self):
        return self.c.sched.cur if self.c.sched is not None else None

    @property
    def dead(self):
        return self.off or self.sid in self.gone

    @dead.setter
    def dead(self, v):
        pass

    def is_dead(self, raw):
        if not hasattr(raw, "sid"):
            raw.sid = self.sid
        return self.off or raw.sid in self.gone

    def kill(self, power):
        self.power = power
        if power or self.threads:
            self.off = True
        else:
            self.gone.add(self.sid)
        raise SimCrash("simulated crash")


class C33:
    id = "C33"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("two or three PSO/DE runs with step saving in the same folder of "
            "a simulated disk, as threads of one process or as processes of "
            "their own, switched at file operations, objective calls and "
            "source lines; some crash, lose power or meet a full or failing "
            "disk; a last run starts in what they left; non-trivial: at "
            "least one switch and one completed save")
    real = REAL
    stub = ["disk (simulated faults, crashes, power loss over a scratch "
            "directory)", "thread and process scheduling (simulated)",
            "objective (generated)"]

    @staticmethod
    def gen(r, tier, i):
        n = pick(r, 2, 2, 3)
        runs = []
        for _ in range(n + 1):
            a = ea.gen_alg(r)
            a["gen"] = pick(r, 1, 2, 2, 3, 4)
            a["pop"] = pick(r, 4, 5, 8, 40)
            u = ea.gen_run(r)
            u.pop("print", None)
            runs.append({"alg": a, "run": u})
        faults = []
        if chance(r, 0.5):
            kind = pick(r, "io", "io", "io:write", "io:fsync", "io:replace",
                        "io:open", "objective")
            do = pick(r, "crash", "crash", "power")
            if kind.startswith("io:") and chance(r, 0.5):
                do = pick(r, "eio", "enospc")
            faults.append({"at": kind, "n": pick(r, 0, 1, 2, 3, 5, 8, 13),
                           "do": do, "frac": pick(r, 0.0, 0.4, 0.9),
                           "sid": r.randrange(n)})
        return {"runs": runs, "threads": chance(r, 0.5), "faults": faults,
                "lines": chance(r, 0.5), "bufsize": pick(r, 8192, 512),
                "slices": [[r.randrange(n), pick(r, 1, 1, 1, 2, 3, 5, 9, 20,
                                                 60)]
                           for _ in range(pick(r, 10, 40, 120))]}

    @staticmethod
    def one(lib, c, q, on_call=None, save=True):
        obj = Objective(c, q["run"]["obj"], q["run"]["space"], on_call)
        opt = ea.make(lib, q["alg"])
        return obj, lambda: snap(ea.call(
            opt, obj, q["run"], **({"save_step_results": True}
                                   if save else {})))

    @staticmethod
    def run(scn, c):
        runs = scn["runs"]
        n = len(runs) - 1
        alone = []
        for q in runs:
            seams.set_global_state(seams.seed_state(q["run"]["np"]))
            obj, go = C33.one(Lib(), c, q, save=False)
            alone.append((go(), obj.rows()))
        path = os.path.join(c.scratch, C05.FILE)
        d = c.disk = SharedDisk(c, c.scratch, scn["threads"])
        d.names = [C05.FILE]
        c.opt["bufsize"] = scn["bufsize"]
        c.opt["pids"] = [4000 + (0 if scn["threads"] else 7 * j)
                         for j in range(n)]
        objs, state = [], {"saved": False}

        def done(j):
            return len(objs[j].Y) // runs[j]["alg"]["pop"] - 1

        def check(where):
            if not state["saved"]:
                return
            cand = [(objs[j], g, runs[j]["alg"], runs[j]["run"])
                    for j in range(n) for g in (done(j), done(j) - 1)
                    if g >= 1]
            C05.verify(c, path, cand, "lost-or-torn", where)
            c.probe("checkpoint-read")

        def on_call(j):
            def f(o):
                if d.dead:
                    raise SimCrash("process is dead")
                if done(j) >= 1:
                    state["saved"] = True
                check(f"while run {j} evaluates")
            return f
        shared = Lib()
        bodies = []
        for j in range(n):
            obj, go = C33.one(shared if scn["threads"] else Lib(), c,
                              runs[j], on_call(j))
            objs.append(obj)
            bodies.append(go)
        c.plan(scn["faults"])
        sch = c.sched = Scheduler(
            c, [s for s in scn["slices"] if s[0] < n], swap_rng=True,
            trace_lines=scn["lines"])
        try:
            res, err = sch.run(bodies, [seams.seed_state(
                runs[j]["run"]["np"]) for j in range(n)])
        finally:
            c.sched = None
        hit = {f.get("sid") for f in c.faults if f.get("used")}
        c.plan([])
        c.sched_switches = sch.switches
        d.off = True
        C05.release(d)
        if d.power:
            d.power_loss()
        for j in range(n):
            e = err.get(j)
            if isinstance(e, Violation):
                raise e
            if e is None:
                state["saved"] = True
                C33.compare(c, j, alone[j], res[j], objs[j])
                c.probe("run-completed")
            elif isinstance(e, (SimCrash, *INJECTED)):
                c.probe("run-died")
            else:
                need(isinstance(e, OSError) and j in hit, "save-disturbed",
                     lambda: f"run {j}: {e!r:.200}")
                c.probe("run-failed")
        d.off = False
        check("after all runs")
        # the next process in the same folder
        c.opt["pids"] = [4000]
        q = runs[n]
        obj, go = C33.one(Lib(), c, q)
        c.disk = dk.Disk(c, c.scratch)
        c.disk.names = [C05.FILE]
        c.sched = Scheduler(c, [], swap_rng=True)
        try:
            res, err = c.sched.run([go], [seams.seed_state(q["run"]["np"])])
        finally:
            c.sched = None
        e = err.get(0)
        if e is not None and not isinstance(e, OSError):
            raise e
        need(e is None, "save-disturbed",
             lambda: f"run in the same folder afterwards: {e!r:.200}")
        C33.compare(c, n, alone[n], res[0], obj)
        C05.verify(c, path, [(obj, len(obj.Y) // q["alg"]["pop"] - 1,
                              q["alg"], q["run"])], "lost-or-torn",
                   "after the next run")
        c.disk = None
        c.nontrivial = state["saved"] and sch.switches > 0

    @staticmethod
    def compare(c, j, alone, got, obj):
        from iso import diff
        from util import same
        want, rows = alone
        need(same(rows[0], obj.rows()[0]) and same(rows[1], obj.rows()[1]),
             "run-disturbed", f"run {j} evaluated other points than alone")
        need(same(want, got), "run-disturbed",
             lambda: f"run {j}: {diff(want, got)}")


PROPS = [C33]
