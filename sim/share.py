"""C20-C24: shared models, failures, observation, model currency, pickling."""
import inspect
import random

import numpy as np

import bo
import doe
import ea
import iso
import models
import seams
import util
from core import (INJECTED, HarnessError, Invalid, Lib, Scheduler, SimFault,
                  SimInterrupt, SimMemory, Violation, interrupt_at_line)
from iso import diff, near
from util import Objective, arr, chance, gen_obj, need, pick, same, snap

REAL = ["mfpml (all packages)", "numpy", "scipy searches inside their seams"]


def quiet_search(c, **kw):
    c.rng_mode = {"extreme": 0.0}
    c.groups.clear()
    c.opt.clear()
    c.opt.update(dict(maxiter=1, end_p=0.8, end_modes=["stall"],
                      de_maxiter=0, de_popsize=2, de_polish=False), **kw)


# -- trained models with an acquisition function ------------------------------
SUR = {"HK": "HierarchicalKriging", "SK": "ScaledKriging", "CK": "CoKriging"}


def gen_kit(r, kinds=("GP", "GP", "HK", "SK", "CK")):
    k = pick(r, *kinds)
    m = models.gen_model(r, [k])
    m["opt"] = None
    m["restart"] = pick(r, 0, 0, 1)
    m.pop("own", None)
    kind = "mf" if k != "GP" else pick(r, "sf", "sf", "cons")
    a = bo.gen_acq(r, kind, SUR.get(k))
    ms = [m]
    if kind == "cons":
        for _ in range(pick(r, 1, 2)):
            x = dict(models.gen_model(r, ["GP"]), dim=m["dim"],
                     space=m["space"], opt=None, restart=0)
            ms.append(x)
    return {"kind": kind, "models": ms, "acq": a,
            "data": [models.gen_data(r, x) for x in ms],
            "np": r.randrange(2 ** 31), "cost": pick(r, 1.0, 3.0, 0.3)}


class Kit:
    """trained model(s) and an acquisition function"""

    def __init__(self, lib, k, acq=None):
        self.k = k
        self.acq = acq or bo.make_acq(lib, k["acq"])
        self.mods = [models.make(lib, m) for m in k["models"]]
        self.D = [models.data(m, g) for m, g in zip(k["models"], k["data"])]

    def train(self, c):
        seams.set_global_state(seams.seed_state(self.k["np"]))
        for mod, D in zip(self.mods, self.D):
            c.groups.clear()
            try:
                mod.train(D[0], D[1])
            except np.linalg.LinAlgError:
                raise Invalid("model not trainable")
        return self

    @property
    def fmin(self):
        y = self.D[0][1]
        return float(np.min(y[0] if isinstance(y, list) else y))

    def do(self, o):
        """one query of the user; returns private copies"""
        m = self.k["models"][0]
        mod = self.mods[0]
        kind = self.k["kind"]
        P = models.query_points(o["s"], o["n"], m)
        do = o["do"]
        if do == "predict":
            y = mod.predict(P, return_std=o["std"])
            return snap(y)
        if do == "predict-lf":
            f = mod.predict if kind != "mf" else mod.predict_lf
            return snap(f(P, return_std=o["std"]))
        if do == "eval":
            if kind == "sf":
                return snap(self.acq.eval(P, mod))
            if kind == "cons":
                return snap(self.acq.eval(P, mod, self.mods[1:]))
            have = {"x": P, "mf_surrogate": mod, "fmin": self.fmin,
                    "cost_ratio": self.k["cost"], "fidelity": o["s"] % 2}
            names = inspect.signature(self.acq.eval).parameters
            return snap(self.acq.eval(**{n: have[n] for n in names}))
        if do == "query":
            if kind == "sf":
                return snap(self.acq.query(mod))
            if kind == "cons":
                return snap(self.acq.query(mod, self.mods[1:]))
            return snap(self.acq.query(mf_surrogate=mod,
                                       cost_ratio=self.k["cost"],
                                       fmin=self.fmin))
        raise HarnessError(do)


def gen_query(r, heavy=True):
    return {"do": pick(r, "predict", "predict", "predict-lf", "eval",
                       *(["query"] if heavy else [])),
            "s": r.randrange(2 ** 31), "n": pick(r, 1, 1, 2, 3, 5),
            "std": chance(r, 0.7)}


class C20:
    id = "C20"
    runs = {"quick": 5000, "thorough": 45000}
    rule = ("one trained model (single-fidelity, constrained set, "
            "hierarchical, scaled, co-kriging), one acquisition function and "
            "one benchmark problem shared by two to four threads that "
            "predict, evaluate and query, switched at source lines by a "
            "seeded schedule; every answer is compared with the one the "
            "thread gets alone; non-trivial: at least one switch")
    real = REAL + ["threading (real threads, one runs at a time)"]
    stub = ["thread scheduling (simulated, down to source lines)",
            "per-thread random streams (swapped by the scheduler)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        k = gen_kit(r)
        k["acq"].pop("opt", None)       # PSO and DE objects keep run state
        n = pick(r, 2, 2, 3, 4)
        th = []
        for _ in range(n):
            ops = [gen_query(r, heavy=chance(r, 0.3))
                   for _ in range(pick(r, 1, 2, 3))]
            if chance(r, 0.15):
                ops.append({"do": "problem", "x": r.randrange(2 ** 31)})
            th.append(ops)
        fam = pick(r, "psf", "pmf", "pcf")
        two = {}
        if chance(r, 0.35):
            # the acquisition function also serves another model
            k2 = dict(k, np=r.randrange(2 ** 31), data=[
                models.gen_data(r, x) for x in k["models"]])
            two = {"kit2": k2}
            for ops in th:
                for o in ops:
                    if o["do"] != "problem" and chance(r, 0.5):
                        o["kit"] = 1
        return {"kit": k, **two, "threads": th, "fam": fam,
                "prob": pick(r, *iso.PROBLEMS[fam]),
                "np": [r.randrange(2 ** 31) for _ in th],
                "slices": [[r.randrange(n), pick(
                    r, 1, 2, 3, 5, 8, 13, 21, 34, 60, 200)]
                    for _ in range(pick(r, 10, 30, 80))]}

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        c.recs = {}
        quiet_search(c)
        kits = [Kit(lib, scn["kit"]).train(c)]
        if "kit2" in scn:
            kits.append(Kit(lib, scn["kit2"], kits[0].acq).train(c))
        k = {"num_dim": 3} if scn["prob"] in ("Ackley", "Thevenot") else {}
        prob = getattr(getattr(lib, scn["fam"]), scn["prob"])(**k)
        c.opt["prngs"] = {j: random.Random(j) for j in range(9)}

        def play(which, slices, lines):
            bodies = []
            for w in which:
                def body(ops=scn["threads"][w]):
                    out = []
                    for o in ops:
                        if o["do"] == "problem":
                            out.append(iso.metadata(
                                prob, o, scn["fam"]))
                        else:
                            out.append(kits[min(
                                o.get("kit", 0), len(kits) - 1)].do(o))
                        c.point("step")
                    return out
                bodies.append(body)
            sch = c.sched = Scheduler(c, slices, swap_rng=True,
                                      trace_lines=lines)
            try:
                return sch.run(bodies, [seams.seed_state(scn["np"][w])
                                        for w in which]) + (sch,)
            finally:
                c.sched = None
        n = len(scn["threads"])
        alone = []
        for w in range(n):
            res, err, _ = play([w], [], False)
            if 0 in err:
                raise err[0]
            alone.append(res[0])
        res, err, sch = play(list(range(n)), [s for s in scn["slices"]
                                              if s[0] < n], True)
        c.sched_switches = sch.switches
        c.nontrivial = sch.switches > 0
        for w in sorted(err):
            raise err[w]
        for w in range(n):
            if not same(alone[w], res[w]):
                c.probe("not-bit-identical")
            need(near(alone[w], res[w]), "concurrent-queries-interfere",
                 lambda: f"thread {w} ({scn['kit']['models'][0]['kind']}, "
                 f"{[o['do'] for o in scn['threads'][w]]}): "
                 f"{diff(alone[w], res[w])}")


# --------------------------------------------------------------------------
ERRORS = ["ValueError", "TypeError", "KeyError", "IndexError",
          "ZeroDivisionError", "FloatingPointError", "ArithmeticError",
          "RuntimeError", "AttributeError", "OSError", "StopIteration",
          "AssertionError", "NotImplementedError", "LinAlgError",
          "MemoryError", "KeyboardInterrupt", "TimeoutError",
          "UnicodeDecodeError", "Warning", "RecursionError",
          "ConnectionError", "EOFError"]
_MADE = {}


def error_class(name):
    """a failure of the user's code that is also a standard exception"""
    if name not in _MADE:
        if name == "KeyboardInterrupt":
            _MADE[name] = SimInterrupt
        elif name == "UnicodeDecodeError":
            _MADE[name] = type("SimUnicode", (SimFault, UnicodeError), {})
        else:
            import builtins
            base = np.linalg.LinAlgError if name == "LinAlgError" \
                else getattr(builtins, name)
            _MADE[name] = type("Sim" + name, (SimFault, base), {})
    return _MADE[name]


def caused(e, exc):
    """is exc what the caller can see in e?"""
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


class Bomb:
    """the n-th call of the user's function fails"""

    def __init__(self, c, n, name):
        self.c, self.n, self.name = c, n, name
        self.raised = None
        self.calls = 0

    def __call__(self, *a):
        self.calls += 1
        if self.raised is None and self.calls > self.n:
            self.c.fire("user-raises", exc=self.name)
            self.raised = error_class(self.name)("user function failed")
            raise self.raised


class C21:
    id = "C21"
    runs = {"quick": 7000, "thorough": 130000}
    rule = ("one failure (any of twenty-two exception types raised by the "
            "user's objective, constraint or optimiser, Ctrl-C at a seam or "
            "source line, allocation failure) during one call of any "
            "component; the call must end with that exception; non-trivial: "
            "the failure happened")
    real = REAL
    stub = ["the user's functions (recorded, fail)", "Ctrl-C and allocation "
            "failures (injected)"]

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "ea", "ea", "bo", "bo", "bo", "bo-init", "train",
                    "train-opt", "query", "query-opt", "predict", "sample")
        scn = {"what": what, "np": r.randrange(2 ** 31)}
        if what == "ea":
            scn["alg"] = ea.gen_alg(r)
            scn["run"] = ea.gen_run(r)
            scn["save"] = chance(r, 0.3)
        elif what in ("bo", "bo-init"):
            s = bo.gen_session(r, pick(r, "sf", "cons", "mf"))
            s["opt"].pop("polish", None)
            s["opt"].update(de_maxiter=0, de_popsize=2)
            scn["session"] = s
            scn["iters"] = pick(r, 1, 2, 3)
        elif what in ("train", "train-opt"):
            m = models.gen_model(r)
            m["opt"] = None if what == "train" else \
                {"alg": pick(r, "PSO", "DE", "random"), "pop": 4, "gen": 1}
            m["restart"] = pick(r, 0, 1, 2)
            scn["model"] = m
            scn["data"] = models.gen_data(r, m)
        elif what in ("query", "query-opt", "predict"):
            k = gen_kit(r, ("GP", "GP", "HK", "SK", "CK")
                        if what != "query-opt" else ("GP",))
            if what == "query":
                k["acq"].pop("opt", None)
            if what == "query-opt":
                k["acq"]["opt"] = {"alg": pick(r, "PSO", "DE"), "pop": 4,
                                   "gen": pick(r, 1, 2)}
            scn["kit"] = k
            scn["op"] = dict(gen_query(r), do="query" if what != "predict"
                             else pick(r, "predict", "predict-lf", "eval"))
        else:
            scn["sampler"] = doe.gen_sampler(r)
            scn["num"] = doe.gen_size(r, scn["sampler"])
        user = what in ("ea", "bo", "bo-init")
        opt = what in ("train-opt", "query-opt")
        k = pick(r, *(["user"] * 5 if user or opt else []), "seam", "seam",
                 "line", "line")
        if k == "user":
            scn["user"] = {"n": pick(r, 0, 0, 1, 1, 2, 3, 5, 8),
                           "exc": pick(r, *ERRORS)}
        elif k == "line":
            scn["line"] = pick(r, 0, 3, 10, 30, 100, 300, 1000) \
                + r.randrange(30)
            scn["exc"] = pick(r, "interrupt", "memory")
        else:
            at = pick(r, *{"ea": ["rng", "stdout"], "sample": ["rng"],
                           "train": ["minimize", "nll", "linalg", "rng"],
                           "train-opt": ["linalg", "rng"],
                           "query": ["de", "acq", "linalg"],
                           "query-opt": ["linalg", "rng"],
                           "predict": ["linalg"]}.get(
                what, ["minimize", "nll", "linalg", "rng", "de", "acq"]
                + ["stdout"] * (what == "bo")))
            if at == "stdout" and what == "ea":
                scn["run"]["print"] = True
            scn["faults"] = [{"at": at, "n": pick(
                r, 0, 0, 1, 2, 4, 9, 20, 60, 200),
                "do": "interrupt" if at == "rng" else pick(
                    r, "full", "pipe", "closed") if at == "stdout" else pick(
                    r, "interrupt", "memory")}]
        if k != "user" and chance(r, 0.6):
            scn["frac"] = round(r.random(), 4)
        return scn

    @staticmethod
    def dry(scn, c):
        """where a given part of the whole call is reached"""
        try:
            c.lib = Lib()
            act = C21.prepare(scn, c, c.lib)
            seams.set_global_state(seams.seed_state(scn["np"]))
            c.groups.clear()
            before = c.counts.copy()
            with interrupt_at_line(float("inf")) as tracer:
                act(None)
        except np.linalg.LinAlgError:
            raise Invalid("fails by itself")
        c.recs = {}
        if "line" in scn:
            return int(scn["frac"] * tracer.count)
        at = scn["faults"][0]["at"]
        return int(scn["frac"] * (c.counts[at] - before[at]))

    @staticmethod
    def run(scn, c):
        c.recs = {}
        quiet_search(c)
        c.nontrivial = False
        c.clock_mode = "tick"
        if "frac" in scn:
            n = C21.dry(scn, c)
            scn = dict(scn, **({"line": n} if "line" in scn else {
                "faults": [dict(scn["faults"][0], n=n)]}))
        lib = c.lib = Lib()
        act = C21.prepare(scn, c, lib)
        u = scn.get("user")
        bomb = Bomb(c, u["n"], u["exc"]) if u else None
        seams.set_global_state(seams.seed_state(scn["np"]))
        c.groups.clear()
        fired0 = sum(c.fired[k] for k in c.fired if C21.mine(k))
        got = None
        tracer = None
        try:
            if "line" in scn:
                tracer = interrupt_at_line(
                    scn["line"], SimMemory if scn.get("exc") == "memory"
                    else SimInterrupt)
                with tracer:
                    act(bomb)
            else:
                c.plan([dict(f) for f in scn.get("faults", [])])
                act(bomb)
        except BaseException as e:          # noqa: BLE001
            got = e
        c.plan([])
        fired = sum(c.fired[k] for k in c.fired if C21.mine(k)) > fired0
        c.log("ended", type(got).__name__ if got else "normally", fired)
        if not fired:
            if got is not None and not isinstance(
                    got, np.linalg.LinAlgError):
                raise got
            return
        c.nontrivial = True
        c.probe("failure-in-" + scn["what"])
        need(got is not None, "failure-swallowed",
             lambda: f"{scn['what']} returned normally after "
             f"{dict((k, v) for k, v in c.fired.items() if C21.mine(k))}")
        if bomb is not None:
            need(caused(got, bomb.raised), "failure-replaced",
                 f"{scn['what']}: the user's {scn['user']['exc']} became "
                 f"{got!r}")
        else:
            need(bo.is_failure(got), "failure-replaced",
                 f"{scn['what']}: became {got!r}")

    @staticmethod
    def mine(k):
        return k.startswith(("user-raises", "interrupt", "alloc-failure",
                             "objective-raises", "stdout-"))

    @staticmethod
    def prepare(scn, c, lib):
        what = scn["what"]
        if what == "ea":
            opt = ea.make(lib, scn["alg"])

            def act(bomb):
                obj = Objective(c, scn["run"]["obj"], scn["run"]["space"],
                                bomb)
                ea.call(opt, obj, scn["run"],
                        **({"save_step_results": True} if scn["save"]
                           else {}))
            return act
        if what in ("bo", "bo-init"):
            s = scn["session"]
            rec = c.recs.setdefault(0, bo.Recorder(c))
            if what == "bo-init":
                def act(bomb):
                    rec.hook = bomb
                    try:
                        bo.create(c, s)
                    except Invalid:
                        # the failure was of this kind and is reported
                        if bomb is not None and bomb.raised is not None:
                            raise bomb.raised
                        raise
                return act
            opt = bo.create(c, s)
            rec = c.recs[0]

            def act(bomb):
                rec.hook = bomb
                bo.go(opt, s, scn["iters"], 1e-12)
            return act
        if what in ("train", "train-opt"):
            m = scn["model"]
            D = models.data(m, scn["data"])
            log = []
            mod = models.make(lib, m, log)

            def act(bomb):
                if bomb is not None:
                    C21.arm(mod, bomb)
                mod.train(D[0], D[1])
            return act
        if what == "sample":
            s = scn["sampler"]
            smp = doe.make(lib, s)

            def act(bomb):
                doe.request(smp, s, snap(scn["num"]), None)
            return act
        kit = Kit(lib, scn["kit"]).train(c)

        def act(bomb):
            if bomb is not None:
                kit.acq.optimizer = Failing(kit.acq.optimizer, bomb)
            kit.do(scn["op"])
        return act

    @staticmethod
    def arm(mod, bomb):
        """the user's optimiser fails"""
        for o in (mod, getattr(mod, "lfGP", None),
                  getattr(mod, "disc_model", None)):
            if o is not None and getattr(o, "optimizer", None) is not None:
                o.optimizer = Failing(o.optimizer, bomb)


class Failing:
    """a user-supplied optimiser whose n-th candidate fails"""

    def __init__(self, inner, bomb):
        self.inner, self.bomb = inner, bomb

    def run_optimizer(self, func, *a, **k):
        def f(x, *args):
            self.bomb(x)
            return func(x, *args)
        return self.inner.run_optimizer(f, *a, **k)


# --------------------------------------------------------------------------
def looked(c, f, obj):
    try:
        f(obj)
    except Violation as e:          # another property
        c.probe(e.cls)


def watch(c, how, obj, acq, space, kind, extra):
    """looking at a session must not change it"""
    X = None if space is None else space.mean(axis=1).reshape(1, -1)
    if how == "predict":
        for m in extra["mods"]:
            m.predict(X, return_std=True)
            if hasattr(m, "predict_lf"):
                m.predict_lf(X, return_std=True)
    elif how == "eval" and acq is not None and hasattr(acq, "eval"):
        if kind == "sf":
            acq.eval(X, extra["mods"][0])
        elif kind == "cons":
            acq.eval(X, extra["mods"][0], extra["mods"][1:])
    elif how == "pickle":
        looked(c, util.dumps, obj)
    elif how == "copy":
        looked(c, util.deepcopy, obj)
    elif how == "read":
        for o in [obj] + extra["mods"]:
            for n in sorted(dir(o)):
                if n.startswith("__"):
                    continue
                try:
                    v = getattr(o, n)
                except INJECTED:
                    raise
                except Exception:
                    continue
                if not callable(v):
                    repr(v)
    elif how == "clock":
        c.clock += 1e6


WATCH = ["predict", "eval", "pickle", "copy", "read", "clock", None]


class C22:
    id = "C22"
    runs = {"quick": 2500, "thorough": 27000}
    rule = ("the same evolutionary run, BO session, sampling or training "
            "history twice with the same random numbers, once silent and "
            "once printing, saving steps and designs, predicting, pickling, "
            "copying and reading attributes in between, with another clock; "
            "all evaluated points and results must agree; non-trivial: at "
            "least one observation")
    real = REAL + ["pickle", "copy"]
    stub = ["clock (simulated)", "random streams (set per run)"]

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "ea", "ea", "bo", "bo", "sample", "train")
        scn = {"what": what, "np": r.randrange(2 ** 31),
               "clock2": pick(r, "tick", "jump", "frozen")}
        if what == "ea":
            a = ea.gen_alg(r)
            a["gen"] = min(a["gen"], 6)
            runs = [ea.gen_run(r) for _ in range(pick(r, 1, 2))]
            for u in runs:
                u.pop("print", None)
            scn.update(alg=a, runs=runs, print=chance(r, 0.6),
                       save=chance(r, 0.6),
                       watch=[pick(r, *WATCH) for _ in runs])
        elif what == "bo":
            s = bo.gen_session(r, pick(r, "sf", "cons", "mf"))
            s["verbose"] = False
            s["opt"].pop("polish", None)
            s["opt"].update(de_maxiter=0, de_popsize=2)
            calls = [pick(r, 0, 1, 2) for _ in range(pick(r, 1, 2, 3))]
            calls[0] = max(1, calls[0])
            scn.update(session=s, calls=calls, verbose=chance(r, 0.7),
                       tol=pick(r, 1e-12, 0.9, 1.0, 0.5),
                       watch=[[pick(r, *WATCH) for _ in range(2)]
                              for _ in calls])
            opt = pick(r, None, 0.0, 2.5)
            if not s["problem"].get("builtin"):
                s["problem"]["optimum"] = opt
        elif what == "sample":
            s = doe.gen_sampler(r)
            scn.update(sampler=s, reqs=[
                {"num": doe.gen_size(r, s),
                 "s": pick(r, None, doe.gen_seed(r)),
                 "watch": pick(r, "save", "save", "read", "pickle", "copy",
                               None, "plot")} for _ in range(pick(r, 1, 2, 3))])
        else:
            m = models.gen_model(r)
            m["restart"] = pick(r, 0, 1, 2)
            scn.update(model=m, trains=[models.gen_data(r, m)
                                        for _ in range(pick(r, 1, 2, 3))])
            scn["watch"] = [[pick(r, *WATCH) for _ in range(2)]
                            for _ in scn["trains"]]
        return scn

    @staticmethod
    def run(scn, c):
        body = {"ea": C22.ea, "bo": C22.bo, "sample": C22.sample,
                "train": C22.train}[scn["what"]]
        out = []
        for seen in (False, True):
            lib = c.lib = Lib()
            c.recs = {}
            quiet_search(c, prng=random.Random(scn["np"]))
            c.entropy = random.Random(scn["np"] ^ 0x1234)
            c.clock_mode = scn["clock2"] if seen else "tick"
            seams.set_global_state(seams.seed_state(scn["np"]))
            c.nontrivial = False
            out.append(body(scn, c, lib, seen))
        if not same(out[0], out[1]):
            c.probe("not-bit-identical")
        need(near(out[0], out[1]), "observed-run-differs",
             lambda: f"{scn['what']}: {diff(out[0], out[1])}")

    @staticmethod
    def ea(scn, c, lib, seen):
        opt = ea.make(lib, scn["alg"])
        out = []
        for u, w in zip(scn["runs"], scn["watch"]):
            obj = Objective(c, u["obj"], u["space"])
            k = {}
            if seen:
                k["print_info"] = scn["print"]
                k["save_step_results"] = scn["save"]
                c.nontrivial = c.nontrivial or scn["print"] or scn["save"]
            got = ea.call(opt, obj, u, **k)
            if seen and w:
                c.nontrivial = True
                if w == "eval":
                    C22.plot(opt.plot_optimization_history,
                             save_figure=scn["np"] % 8 == 0)
                if w in ("copy", "read", "clock"):
                    watch(c, w, opt, None, ea.space_of(u), "ea",
                          {"mods": []})
            out.append([np.array(obj.X), np.array(obj.Y), snap(got[1]),
                        snap(got[2]), snap(got[0])
                        if isinstance(got[0], dict) else None])
        return out

    @staticmethod
    def plot_design(smp, s):
        if hasattr(smp, "nested") or smp.num_dim > 3:
            return
        import importlib
        v = importlib.import_module(
            "mfpml.visualization.samplers_visualization")
        if arr(smp.samples).shape[1] == smp.num_dim:
            C22.plot(v.SFSamplerVisualization(smp).plot_samples)

    @staticmethod
    def plot(f, **k):
        import matplotlib.pyplot as plt
        try:
            f(**k)
        finally:
            plt.close("all")

    @staticmethod
    def bo(scn, c, lib, seen):
        s = snap(scn["session"])
        s["verbose"] = bool(seen and scn["verbose"])
        opt = bo.create(c, s, int(seen))
        c.opt["prng"] = random.Random(scn["np"])
        space = arr(opt.problem.input_domain)
        for n, ws in zip(scn["calls"], scn["watch"]):
            if seen:
                mods = [opt.obj_surrogate] + list(opt.cons_surrogates) \
                    if s["kind"] == "cons" else [opt.surrogate]
                for w in ws:
                    c.nontrivial = c.nontrivial or w is not None
                    watch(c, w, opt, opt.acquisition, space, s["kind"],
                          {"mods": mods})
            try:
                bo.go(opt, s, n, scn["tol"])
            except np.linalg.LinAlgError:
                c.probe("linalg-skip")
                break
        return [[str(w), X, Y] for w, X, Y in c.recs[int(seen)].log] + [
            [float(np.ravel(opt.best)[0]), snap(opt.best_x),
             snap(opt.history_best), snap(opt.history_best_x)]]

    @staticmethod
    def sample(scn, c, lib, seen):
        s = scn["sampler"]
        smp = doe.make(lib, s)
        out = []
        for j, o in enumerate(scn["reqs"]):
            out.append(snap(doe.request(smp, s, snap(o["num"]), o["s"])))
            w = o["watch"]
            if seen and w:
                c.nontrivial = True
                if w == "save":
                    smp.save_data(file_name=f"w{j % 2}")
                elif w == "plot":
                    C22.plot_design(smp, s)
                else:
                    watch(c, w, smp, None, None, None, {"mods": []})
            out.append(snap(doe.current(smp, s)))
        out.append(np.random.random(3))
        return out

    @staticmethod
    def train(scn, c, lib, seen):
        m = scn["model"]
        mod = models.make(lib, m)
        out = []
        P = models.query_points(5, 2, m)
        for g, ws in zip(scn["trains"], scn["watch"]):
            D = models.data(m, g)
            try:
                mod.train(D[0], D[1])
            except np.linalg.LinAlgError:
                raise Invalid("not trainable")
            if seen:
                for w in ws:
                    c.nontrivial = c.nontrivial or w is not None
                    watch(c, w, mod, None, arr(m["space"]), None,
                          {"mods": [mod]})
        out.append(models.predictions(mod, m, P))
        out.append(np.random.random(3))
        return out


# --------------------------------------------------------------------------
class C23:
    id = "C23"
    runs = {"quick": 1500, "thorough": 27000}
    rule = ("BO sessions of all kinds over several calls with objective "
            "failures in between; the trainings are recorded, and at every "
            "proposal and whenever a call returns the surrogate's latest "
            "training data must be all evaluations made so far; non-trivial: "
            "at least two proposals")
    real = REAL
    stub = ["the user's functions (recorded, may fail)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        kind = pick(r, "sf", "cons", "mf", "mf")
        s = bo.gen_session(r, kind)
        s["opt"].pop("polish", None)
        s["opt"].update(de_maxiter=0, de_popsize=2)
        ops = []
        for _ in range(pick(r, 1, 2, 3)):
            o = {"iters": pick(r, 1, 2, 3, 4)}
            if chance(r, 0.4):
                o["fault"] = bo.gen_bo_fault(r, kind)
            ops.append(o)
        return {"session": s, "ops": ops}

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        c.recs = {}
        s = scn["session"]
        kind = s["kind"]
        last = {}
        names = {"sf": ["GP"], "cons": ["GP"], "mf": ["HK", "SK", "CK"]}[kind]
        for n in names:
            C23.record(getattr(lib, n), last)
        opt = bo.create(c, s)
        rec = c.recs[0]
        inner = opt.acquisition.query
        count = [0]

        def query(*a, **k):
            count[0] += 1
            ms = [v for v in list(a) + list(k.values())]
            flat = []
            for v in ms:
                flat += list(v) if isinstance(v, (list, tuple)) else [v]
            C23.judge(kind, rec, [v for v in flat if id(v) in last], last,
                      "at a proposal")
            return inner(*a, **k)
        opt.acquisition.query = query
        mods = C23.mods(kind, opt)
        C23.judge(kind, rec, mods, last, "after construction")
        for o in scn["ops"]:
            f = o.get("fault")
            c.plan([dict(f)] if f else [])
            try:
                bo.go(opt, s, o["iters"], 1e-12)
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e):
                    raise
                c.probe("call-failed")
                c.plan([])
                c.groups.clear()
                continue
            c.plan([])
            c.groups.clear()
            C23.judge(kind, rec, C23.mods(kind, opt), last,
                      "when a call returned")
        c.nontrivial = count[0] >= 2

    @staticmethod
    def record(cls, last):
        inner = cls.train

        def train(self, *a, **k):
            D = list(a) + list(k.values())
            keep = snap(D[:2])
            last.pop(id(self), None)
            out = inner(self, *a, **k)
            last[id(self)] = keep
            return out
        cls.train = train

    @staticmethod
    def mods(kind, opt):
        return [opt.obj_surrogate] + list(opt.cons_surrogates) \
            if kind == "cons" else [opt.surrogate]

    @staticmethod
    def judge(kind, rec, mods, last, when):
        ev = bo.completed(kind, rec)
        n = {"sf": 1, "mf": 1}.get(kind)
        if n is None:
            n = ev[0][2].shape[1]
        need(len(mods) == n, "surrogate-not-trained",
             f"{len(mods)} of {n} models trained {when}")
        for j, m in enumerate(mods):
            need(id(m) in last, "surrogate-not-trained", when)
            D = last[id(m)]
            if kind == "mf":
                for lv, q in ((0, "h"), (1, "l")):
                    rows = [(X, Y) for w, X, Y in ev if w == lv]
                    C23.rows(D[0][lv], D[1][lv], rows,
                             f"fidelity {lv} {when}")
                    C23.kept(m, "sample_x" + q, "sample_y" + q, rows,
                             f"fidelity {lv} {when}")
            else:
                rows = [(X, Y[:, j:j + 1]) for w, X, Y in ev]
                C23.rows(D[0], D[1], rows, f"model {j} {when}")
                C23.kept(m, "sample_x", "sample_y", rows,
                         f"model {j} {when}")

    @staticmethod
    def kept(m, x, y, rows, where):
        """the data the model itself says it was trained with"""
        X, Y = getattr(m, x, None), getattr(m, y, None)
        if X is not None and Y is not None:
            C23.rows(X, Y, rows, where + " (inside the model)")

    @staticmethod
    def rows(X, Y, ev, where):
        want = sorted(tuple(x) + tuple(y) for Xs, Ys in ev
                      for x, y in zip(Xs.tolist(), Ys.tolist()))
        X = np.atleast_2d(arr(X))
        Y = arr(Y).reshape(-1, 1)
        got = sorted(tuple(x) + tuple(y)
                     for x, y in zip(X.tolist(), Y.tolist()))
        need(len(X) == len(Y) and got == want, "surrogate-out-of-date",
             lambda: f"{where}: trained on {len(got)} rows, {len(want)} "
             f"evaluations; missing {[w for w in want if w not in got][:2]} "
             f"unknown {[w for w in got if w not in want][:2]}")


# --------------------------------------------------------------------------
class C24:
    id = "C24"
    runs = {"quick": 7000, "thorough": 75000}
    rule = ("a sampler, evolutionary optimiser, model, acquisition function "
            "or benchmark problem used over a history of calls; after a "
            "seeded prefix it is pickled and restored in a new process (or "
            "deep-copied) together with the random state, and must answer "
            "the rest of the history exactly as the original; the original "
            "is not changed by what its copy does; non-trivial: a restore "
            "with at least one call after it")
    real = REAL + ["pickle", "copy"]
    stub = ["process restart (modules purged and imported again, ambient "
            "state replaced)"]

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "sampler", "sampler", "ea", "ea", "kit", "kit",
                    "model", "model", "problem")
        scn = {"what": what, "np": r.randrange(2 ** 31),
               "how": pick(r, "pickle", "pickle", "deepcopy"),
               "amb2": r.randrange(2 ** 31), "proto": pick(r, 2, 4, 5)}
        if what == "sampler":
            q = iso.g_sampler(r)
            s = q["s"]
            scn["s"] = s
            scn["ops"] = [{"num": doe.gen_size(r, s), "s": pick(
                r, None, doe.gen_seed(r), doe.gen_seed(r))}
                for _ in range(pick(r, 2, 3, 4))]
        elif what == "ea":
            q = iso.g_ea(r)
            scn["alg"] = q["alg"]
            scn["ops"] = [ea.gen_run(r) for _ in range(pick(r, 1, 2, 3))]
            for u in scn["ops"]:
                u["obj"].pop("noisy", None)
        elif what == "kit":
            scn["kit"] = gen_kit(r)
            scn["ops"] = [gen_query(r) for _ in range(pick(r, 1, 2, 3))]
        elif what == "model":
            m = models.gen_model(r)
            m["restart"] = pick(r, 0, 1, 2)
            scn["m"] = m
            ops = [models.gen_train(r, m)]
            for _ in range(pick(r, 1, 2, 3)):
                ops.append(models.gen_train(r, m, models.last_train(ops))
                           if chance(r, 0.5) else
                           {"do": "predict", "s": r.randrange(2 ** 31),
                            "n": pick(r, 1, 3), "std": True})
            scn["ops"] = ops
        else:
            fam = pick(r, "psf", "pmf", "pcf")
            n = pick(r, *iso.PROBLEMS[fam])
            scn["p"] = {"fam": fam, "name": n, "dim": pick(r, 1, 2, 3, 7)
                        if n in ("Ackley", "Thevenot") else None}
            scn["ops"] = [{"x": r.randrange(2 ** 31)}
                          for _ in range(pick(r, 1, 2))]
        scn["cut"] = r.randrange(len(scn["ops"]))
        if what in ("kit", "problem") or (what == "model" and
                                          chance(r, 0.6)):
            scn["cut"] = r.randrange(len(scn["ops"]))
        return scn

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        c.recs = {}
        quiet_search(c, prng=random.Random(scn["np"]))
        c.clock_mode = "tick"
        seams.set_global_state(seams.seed_state(scn["np"]))
        c.entropy = random.Random(scn["np"])
        obj = C24.build(scn, c, lib)
        ops, cut = scn["ops"], min(scn["cut"], len(scn["ops"]))
        for o in ops[:cut]:
            C24.step(scn, c, obj, o)
        st = seams.get_global_state()
        ent = c.entropy.getstate()
        pr = c.opt["prng"].getstate()
        if scn["how"] == "pickle":
            blob = util.dumps(obj, scn["proto"])
        else:
            twin = util.deepcopy(obj)
        a = [C24.step(scn, c, obj, o) for o in ops[cut:]]
        c.fire("crash-and-restart" if scn["how"] == "pickle" else "deepcopy")
        if scn["how"] == "pickle":
            del obj
            c.lib = Lib()
            seams.reset_process_state(scn["amb2"])
            twin = util.loads(blob)
        seams.set_global_state(st)
        c.entropy.setstate(ent)
        c.opt["prng"].setstate(pr)
        c.groups.clear()
        if scn["how"] == "deepcopy":
            before = C24.face(scn, obj)
        b = [C24.step(scn, c, twin, o) for o in ops[cut:]]
        c.nontrivial = bool(a)
        if not same(a, b):
            c.probe("not-bit-identical")
        need(near(a, b), "restored-object-differs",
             lambda: f"{scn['what']} ({scn['how']}): {diff(a, b)}")
        if scn["how"] == "deepcopy":
            need(near(before, C24.face(scn, obj)), "copy-changes-original",
                 scn["what"])

    @staticmethod
    def build(scn, c, lib):
        w = scn["what"]
        if w == "sampler":
            return doe.make(lib, scn["s"])
        if w == "ea":
            return ea.make(lib, scn["alg"])
        if w == "kit":
            return Kit(lib, scn["kit"]).train(c)
        if w == "model":
            return models.make(lib, scn["m"])
        k = {} if scn["p"]["dim"] is None else {"num_dim": scn["p"]["dim"]}
        return getattr(getattr(lib, scn["p"]["fam"]), scn["p"]["name"])(**k)

    @staticmethod
    def step(scn, c, obj, o):
        w = scn["what"]
        if w == "sampler":
            got = snap(doe.request(obj, scn["s"], snap(o["num"]), o["s"]))
            return [got, snap(doe.current(obj, scn["s"]))]
        if w == "ea":
            f = Objective(c, o["obj"], o["space"])
            got = ea.call(obj, f, o)
            return [np.array(f.X), np.array(f.Y), snap(got[1]),
                    snap(got[2])]
        if w == "kit":
            return obj.do(o)
        if w == "model":
            if o["do"] == "predict":
                P = models.query_points(o["s"], o["n"], scn["m"])
                return models.predictions(obj, scn["m"], P)
            D = models.data(scn["m"], o["data"])
            c.groups.clear()
            try:
                obj.train(D[0], D[1])
            except np.linalg.LinAlgError:
                raise Invalid("not trainable")
            return models.predictions(
                obj, scn["m"], models.query_points(3, 2, scn["m"]))
        return iso.metadata(obj, o, scn["p"]["fam"])

    @staticmethod
    def face(scn, obj):
        """what the original shows"""
        w = scn["what"]
        if w == "sampler":
            return snap(doe.current(obj, scn["s"]))
        if w in ("kit",):
            return obj.do({"do": "predict", "s": 1, "n": 2, "std": True})
        if w == "model":
            return models.predictions(obj, scn["m"], models.query_points(
                3, 2, scn["m"]))
        if w == "problem":
            return iso.metadata(obj, scn["ops"][0], scn["p"]["fam"])
        return None


# --------------------------------------------------------------------------
class C25:
    id = "C25"
    runs = {"quick": 3500, "thorough": 60000}
    rule = ("one to three calls on one object fail or are interrupted (user "
            "exceptions, allocation failures, Ctrl-C at seams and source "
            "lines), then the faults stop: the next call must finish its "
            "whole job; non-trivial: at least one failure")
    real = REAL
    stub = ["the user's functions (recorded, fail)",
            "Ctrl-C and allocation failures (injected)",
            "when each scipy search is cut (simulated)"]
    BO_FILES = ("sf_uncons_bo.py", "sf_cons_bo.py", "mf_uncons_bo.py")

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "bo", "bo", "bo", "bo", "ea", "model", "kit",
                    "sampler")
        scn = {"what": what, "np": r.randrange(2 ** 31)}
        kind = pick(r, "sf", "cons", "mf", "mf")
        if what == "bo":
            s = bo.gen_session(r, kind)
            s["opt"].pop("polish", None)
            s["opt"].update(de_maxiter=0, de_popsize=2)
            scn["session"] = s
        elif what == "ea":
            scn["alg"] = ea.gen_alg(r)
        elif what == "model":
            m = models.gen_model(r)
            m["restart"] = pick(r, 0, 1, 2)
            scn["model"] = m
        elif what == "kit":
            scn["kit"] = gen_kit(r)
        else:
            scn["sampler"] = doe.gen_sampler(r)
        ops = []
        for _ in range(pick(r, 1, 1, 2, 3)):
            o = C25.gen_op(r, scn)
            if what != "bo" and chance(r, 0.15):
                o["refused"] = r.randrange(12)
            elif what != "bo" and chance(r, 0.35):
                o["frac"] = round(r.random(), 4)
                o["exc"] = pick(r, "interrupt", "memory")
            elif chance(r, 0.35):
                o["line"] = pick(r, 0, 10, 100, 1000, 5000, 20000) \
                    + r.randrange(100)
                if what != "bo":
                    o["line"] = o["line"] // 10
            elif what == "bo":
                o["fault"] = bo.gen_bo_fault(r, kind)
            else:
                at = pick(r, *{"ea": ["objective", "rng", "stdout"],
                               "sampler": ["rng"],
                               "model": ["minimize", "nll", "linalg", "rng"],
                               "kit": ["de", "acq", "linalg"]}[what])
                o["fault"] = {"at": at, "n": pick(r, 0, 0, 1, 3, 9, 30),
                              "do": {"rng": "interrupt", "stdout": "full",
                                     "objective": "raise"}.get(at) or pick(
                                         r, "interrupt", "memory")}
                if at == "stdout":
                    o["run"]["print"] = True
            ops.append(o)
        scn["ops"] = ops
        scn["last"] = C25.gen_op(r, scn)
        return scn

    @staticmethod
    def gen_op(r, scn):
        w = scn["what"]
        if w == "bo":
            return {"iters": pick(r, 1, 2, 3)}
        if w == "ea":
            u = ea.gen_run(r)
            u["obj"].pop("noisy", None)
            return {"run": u}
        if w == "model":
            return {"data": models.gen_train(r, scn["model"])["data"]}
        if w == "kit":
            return {"q": gen_query(r)}
        return {"num": doe.gen_size(r, scn["sampler"]),
                "s": pick(r, None, doe.gen_seed(r))}

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        c.recs = {}
        what = scn["what"]
        quiet_search(c, prng=random.Random(scn["np"]))
        c.clock_mode = "tick"
        c.nontrivial = False
        last = {}
        if what == "bo":
            kind = scn["session"]["kind"]
            for n in {"sf": ["GP"], "cons": ["GP"],
                      "mf": ["HK", "SK", "CK"]}[kind]:
                C23.record(getattr(lib, n), last)
        obj = C25.build(scn, c, lib)
        seams.set_global_state(seams.seed_state(scn["np"]))
        for o in scn["ops"]:
            c.groups.clear()
            try:
                if "refused" in o:
                    C25.refused(scn, c, obj, o)
                elif "frac" in o:
                    lines = C25.dry(scn, c, o)
                    with interrupt_at_line(
                            int(o["frac"] * lines), SimMemory
                            if o["exc"] == "memory" else SimInterrupt):
                        C25.act(scn, c, obj, o)
                elif "line" in o:
                    with interrupt_at_line(o["line"], skip=C25.BO_FILES):
                        C25.act(scn, c, obj, o)
                else:
                    c.plan([dict(o["fault"])])
                    C25.act(scn, c, obj, o)
                c.probe("call-completed")
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e):
                    raise
                c.nontrivial = True
                c.probe("call-failed")
            c.plan([])
        c.groups.clear()
        n0 = 0
        if what == "model":         # the job of a new model
            n0 = C25.searches(scn, c, C25.build(scn, c, lib))
        if what == "bo":
            rec = c.recs[0]
            rec.log[:] = C25.paired(kind, rec.log)
            n0 = len(bo.completed(kind, rec))
        try:
            if what == "model":
                got = C25.searches(scn, c, obj)
            else:
                got = C25.act(scn, c, obj, scn["last"])
        except np.linalg.LinAlgError:
            raise Invalid("not trainable any more")
        C25.judge(scn, c, obj, got, n0, last)

    @staticmethod
    def searches(scn, c, obj):
        """the last training: how many searches it runs"""
        quiet_search(c, prng=random.Random(scn["np"]))
        seams.set_global_state(seams.seed_state(scn["np"] ^ 1))
        k = c.counts["minimize"]
        try:
            C25.act(scn, c, obj, scn["last"])
        except np.linalg.LinAlgError:
            raise Invalid("not trainable")
        return c.counts["minimize"] - k

    @staticmethod
    def paired(kind, log):
        """without an objective value whose constraints were not asked"""
        if kind != "cons":
            return log
        return [e for i, e in enumerate(log) if e[0] != "f"
                or (i + 1 < len(log) and log[i + 1][0] != "f")]

    @staticmethod
    def build(scn, c, lib):
        w = scn["what"]
        if w == "bo":
            return bo.create(c, scn["session"])
        if w == "ea":
            return ea.make(lib, scn["alg"])
        if w == "model":
            return models.make(lib, scn["model"])
        if w == "kit":
            return Kit(lib, scn["kit"]).train(c)
        return doe.make(lib, scn["sampler"])

    @staticmethod
    def act(scn, c, obj, o):
        w = scn["what"]
        if w == "bo":
            return bo.go(obj, scn["session"], o["iters"], 1e-12)
        if w == "ea":
            f = Objective(c, o["run"]["obj"], o["run"]["space"])
            return f, ea.call(obj, f, dict(o["run"], stop=None))
        if w == "model":
            m = scn["model"]
            D = models.data(m, o["data"])
            obj.train(D[0], D[1])
            return models.predictions(obj, m, models.query_points(3, 2, m))
        if w == "kit":
            return obj.do(o["q"])
        return snap(doe.request(obj, scn["sampler"], snap(o["num"]),
                                o["s"]))

    @staticmethod
    def dry(scn, c, o):
        """the number of source lines of the call, on an object of its own"""
        state = seams.get_global_state()
        with interrupt_at_line(float("inf")) as t:
            C25.act(scn, c, C25.build(scn, c, c.lib), o)
        seams.set_global_state(state)
        c.groups.clear()
        return t.count

    @staticmethod
    def refused(scn, c, obj, o):
        """a call with arguments the component cannot work with"""
        w, k = scn["what"], o["refused"]
        try:
            if w == "ea":
                u = dict(o["run"], stop=None)
                f = Objective(c, u["obj"], u["space"])
                bad = [lambda x: "?", lambda x: None,
                       lambda x: np.zeros(3 + len(x))][k % 3]
                after = k % 4

                def g(x, *a):
                    y = f(x, *a)
                    return y if len(f.calls) <= after else bad(x)
                ea.call(obj, g, u)
            elif w == "model":
                m = scn["model"]
                X, Y = snap(models.data(m, o["data"]))
                if m["kind"] == "GP":
                    X, Y = [(X[:-1], Y), (X, None), (None, Y),
                            (X, Y[:-1])][k % 4]
                else:
                    X, Y = [(X[:1], Y), (X, [Y[0], Y[1][:-1]]),
                            ([X[0], X[1][:-1]], Y), (X, None),
                            (X, [Y[0][:-1], Y[1]]), (None, Y)][k % 6]
                obj.train(X, Y)
            elif w == "kit":
                P = np.zeros((2, obj.k["models"][0]["dim"] + 3))
                mod = obj.mods[0]
                [lambda: mod.predict(P, return_std=True),
                 lambda: mod.predict(None),
                 lambda: mod.predict("x")][k % 3]()
            else:
                num = o["num"]
                n = [-3, "many", None, 2.5][k % 4]
                obj.get_samples(num_samples=[n] * len(num) if isinstance(
                    num, list) else n, seed=[1, "x"][k % 2])
        except Exception as e:      # noqa: BLE001
            c.fire("call-refused")
            raise SimFault("refused") from e

    @staticmethod
    def judge(scn, c, obj, got, n0, last):
        w = scn["what"]
        o = scn["last"]
        if w == "bo":
            s = scn["session"]
            kind = s["kind"]
            rec = c.recs[0]
            n = len(bo.completed(kind, rec)) - n0
            known = obj.problem.optimum
            need(known is not None or n == o["iters"], "budget-not-used",
                 f"{n} of {o['iters']} evaluations after the failures")
            bo.check_state(kind, obj, rec, s, c)
            C23.judge(kind, rec, C23.mods(kind, obj), last, "at the end")
        elif w == "ea":
            f, (res, y, x) = got
            a = scn["alg"]
            n = a["pop"] * (a["gen"] + 1)
            need(len(f.Y) == n, "run-not-complete",
                 f"{len(f.Y)} of {n} evaluations")
            need(float(y) == float(np.min(ea.inf_nan(f.Y))),
                 "best-not-lowest", f"{y}")
        elif w == "model":
            need(got == n0, "training-not-complete",
                 f"{got} searches, {n0} by a new model")
        elif w == "sampler":
            want = o["num"]
            n = [len(g) for g in got] if isinstance(got, list) else len(got)
            need(same(np.array(n), np.array(want)), "wrong-size",
                 f"{n} for {want}")


PROPS = [C20, C21, C22, C23, C24, C25]
