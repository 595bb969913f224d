"""C17, C19: independence of sessions and of the caller's data."""
import random

import numpy as np

import bo
import doe
import ea
import models
import seams
from core import (INJECTED, Invalid, Lib, Scheduler, SimInterrupt,
                  SimMemory, interrupt_at_line)
from util import (Objective, arr, base_value, chance, gen_obj, gen_space,
                  need, pick, same, snap)

REAL = ["mfpml (all packages)", "numpy", "scipy searches inside their seams",
        "threading (real threads, one runs at a time)"]
STUB = ["thread scheduling (simulated, down to source lines)",
        "per-session random streams (swapped by the scheduler)",
        "when each scipy search is cut (simulated)"]

PROBLEMS = {"psf": ["Forrester", "Branin", "GoldPrice", "Sixhump", "Sasena",
                    "Hartman3", "Hartman6", "Thevenot", "Ackley",
                    "AckleyN2"],
            "pmf": ["Forrester_1a", "Forrester_1b", "Forrester_1c",
                    "mf_Hartman3", "mf_Sixhump", "mf_Hartman6",
                    "mf_Discontinuous", "ContinuousNonlinearCorrelation1D",
                    "PhaseShiftedOscillations", "mf_Bohachevsky", "mf_Booth",
                    "mf_Borehole", "mf_CurrinExp", "mf_Himmelblau",
                    "mf_Park91A", "mf_Park91B"],
            "pcf": ["Branin_1", "Branin_2"]}


# -- session bodies for C17 ------------------------------------------------------
def g_problem(r):
    ops = []
    fam = pick(r, "psf", "psf", "pmf", "pcf")
    names = [pick(r, *PROBLEMS[fam]) for _ in range(pick(r, 1, 2))]
    if chance(r, 0.6):
        fam, names = "psf", [pick(r, "Ackley", "Thevenot")]
    for _ in range(pick(r, 1, 2, 3)):
        n = pick(r, *names)
        dim = pick(r, 1, 2, 3, 4, 5, 10) if n in ("Ackley", "Thevenot") \
            else None
        ops.append({"name": n, "dim": dim, "x": r.randrange(2 ** 31)})
    return {"type": "problem", "fam": fam, "ops": ops,
            "tick": pick(r, 1, 2, 3)}


def b_problem(lib, c, q, env):
    out = []
    insts = []
    for o in q["ops"]:
        k = {} if o["dim"] is None else {"num_dim": o["dim"]}
        p = getattr(getattr(lib, q["fam"]), o["name"])(**k)
        insts.append((p, o))
        for _ in range(q["tick"]):
            c.point("step")
        for p, oo in insts:
            out.append(metadata(p, oo, q["fam"]))
    return out


def metadata(p, o, fam):
    dom = arr(p.input_domain)
    g = random.Random(o["x"])
    X = dom[:, 0] + np.array([[g.random() for _ in dom]
                              for _ in range(3)]) * (dom[:, 1] - dom[:, 0])
    v = [p.num_dim, dom.copy(), p.optimum, snap(p.optimum_scheme),
         p.num_cons, snap(p.low_fidelity)]
    if fam == "psf":
        v.append(arr(p.f(X)).copy())
    elif fam == "pcf":
        v += [arr(p.f(X)).copy(), arr(p.f_cons(X)).copy()]
    else:
        v += [arr(p.hf(X)).copy(), arr(p.lf(X)).copy()]
    return v


def g_sampler(r):
    s = doe.gen_sampler(r)
    return {"type": "sampler", "s": s,
            "reqs": [{"num": doe.gen_size(r, s), "s": doe.gen_seed(r)}
                     for _ in range(pick(r, 1, 2, 3))]}


def b_sampler(lib, c, q, env):
    smp = doe.make(lib, q["s"])
    out = []
    for o in q["reqs"]:
        got = doe.request(smp, q["s"], snap(o["num"]), o["s"])
        out.append(snap(got))
        c.point("step")
        out.append(snap(doe.current(smp, q["s"])))
    return out


def g_ea(r):
    runs = []
    for _ in range(pick(r, 1, 1, 2)):
        u = ea.gen_run(r)
        u["obj"].pop("noisy", None)
        runs.append(u)
    a = ea.gen_alg(r)
    a["pop"] = min(a["pop"], 7)
    a["gen"] = min(a["gen"], 5)
    return {"type": "ea", "alg": a, "runs": runs}


def b_ea(lib, c, q, env):
    opt = ea.make(lib, q["alg"])
    out = []
    for u in q["runs"]:
        obj = Objective(c, u["obj"], u["space"])
        got = ea.call(opt, obj, u)
        out.append([snap(got[1]), snap(got[2]), arr(got[0]["best_x"]).copy(),
                    np.array(obj.X), np.array(obj.Y)])
        c.point("step")
    return out


def g_model(r):
    m = models.gen_model(r)
    m["restart"] = pick(r, 0, 1, 2)
    h = []
    for _ in range(pick(r, 1, 1, 2)):
        t = models.gen_train(r, m)
        t["maxiter"] = pick(r, 1, 2)
        h.append(t)
    return {"type": "model", "m": m, "trains": h, "q": r.randrange(2 ** 31)}


def b_model(lib, c, q, env):
    m = q["m"]
    mod = models.make(lib, m)
    out = []
    P = models.query_points(q["q"], 3, m)
    for t in q["trains"]:
        D = models.data(m, t["data"])
        mod.train(D[0], D[1])
        out.append(models.predictions(mod, m, P))
        c.point("step")
    return out


def g_bo(r):
    s = bo.gen_session(r, pick(r, "sf", "cons", "mf"))
    s["problem"].pop("noisy", None)
    s["opt"].pop("polish", None)
    s["opt"].update(de_maxiter=0, de_popsize=2)
    it, n = pick(r, (1, 1), (1, 1), (2, 1), (1, 2))
    return {"type": "bo", "s": s, "iters": it, "calls": n}


def b_bo(lib, c, q, env):
    s = q["s"]
    key = env["key"]
    c.recs[key] = bo.Recorder(c)
    k = {"problem": bo.make_problem(s["problem"], key),
         "acquisition": bo.make_acq(lib, s["acq"]),
         "num_init": snap(s["init"]), "seed": s["seed_"],
         "verbose": s["verbose"]}
    if s["kind"] == "mf":
        k["surrogate_name"] = s["surrogate"]
    opt = getattr(lib, bo.CLS[s["kind"]])(**k)
    for _ in range(q.get("calls", 1)):
        c.point("step")
        bo.go(opt, s, q["iters"], 1e-12)
    c.point("step")
    out = [[str(w), X, Y] for w, X, Y in c.recs[key].log]
    out.append([float(np.ravel(opt.best)[0]), snap(opt.best_x)])
    out.append([snap(getattr(opt, n)) for n in (
        "sample", "response", "obj_response", "cons_response",
        "history_best", "history_best_x", "fidelity_query_order",
        "known_optimum", "stopping_error") if hasattr(opt, n)])
    return out


def g_acq(r):
    m = models.gen_model(r, ["GP"])
    m["opt"] = None
    m["restart"] = 0
    t = models.gen_train(r, m)
    t["end_p"] = 0.0
    return {"type": "acq", "m": m, "t": t, "a": bo.gen_acq(r, "sf"),
            "n": pick(r, 1, 2)}


def b_acq(lib, c, q, env):
    mod = models.make(lib, q["m"])
    D = models.data(q["m"], q["t"]["data"])
    mod.train(D[0], D[1])
    acq = bo.make_acq(lib, q["a"])
    out = []
    for _ in range(q["n"]):
        x = acq.query(mod)
        out.append([arr(x).copy(), arr(acq.eval(arr(x), mod)).copy()])
        c.point("step")
    return out


GEN = {"problem": g_problem, "sampler": g_sampler, "ea": g_ea,
       "model": g_model, "bo": g_bo, "acq": g_acq}
BODY = {"problem": b_problem, "sampler": b_sampler, "ea": b_ea,
        "model": b_model, "bo": b_bo, "acq": b_acq}


class C17:
    id = "C17"
    runs = {"quick": 2500, "thorough": 45000}
    rule = ("two to four independent sessions (problems, samplers, "
            "optimisers, models, acquisition queries, BO runs) interleaved "
            "by a seeded schedule, down to source lines, each with its own "
            "random stream, compared with the same session alone in a new "
            "process; non-trivial: at least one switch between sessions")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        n = pick(r, 2, 2, 2, 3, 4)
        kinds = ["problem", "sampler", "ea", "model", "bo", "acq"]
        ss = []
        for k in range(n):
            t = pick(r, *kinds)
            if k and chance(r, 0.4):
                t = ss[0]["type"]
            ss.append(GEN[t](r))
            if k and chance(r, 0.15):
                ss[-1] = snap(ss[0])        # twins with other random numbers
        heavy = sum(q["type"] in ("model", "bo", "acq") for q in ss)
        return {"sessions": ss, "lines": chance(r, 0.5 if heavy == 0
                                                else 0.12),
                "np": [r.randrange(2 ** 31) for _ in ss],
                "slices": [[r.randrange(n), pick(r, 1, 1, 2, 3, 7, 20, 90,
                                                 400)]
                           for _ in range(pick(r, 6, 20, 60))]}

    @staticmethod
    def play(scn, c, which, slices, lines):
        """run the sessions `which` in a new process"""
        lib = c.lib = Lib()
        c.recs = {}
        c.rng_mode = {"extreme": 0.0}
        c.groups.clear()
        c.opt.clear()
        c.opt.update(maxiter=1, end_p=0.8, end_modes=["stall"],
                     de_maxiter=0, de_popsize=2, de_polish=False)
        c.opt["prngs"] = {k: random.Random(scn["np"][w])
                          for k, w in enumerate(which)}
        bodies = []
        for k, w in enumerate(which):
            q = scn["sessions"][w]

            def body(q=q, k=k):
                return BODY[q["type"]](lib, c, q, {"key": k})
            bodies.append(body)
        sch = c.sched = Scheduler(c, slices, swap_rng=True,
                                  trace_lines=lines)
        try:
            return sch.run(bodies, [seams.seed_state(scn["np"][w])
                                    for w in which]) + (sch,)
        finally:
            c.sched = None

    @staticmethod
    def run(scn, c):
        n = len(scn["sessions"])
        alone = []
        for w in range(n):
            res, err, _ = C17.play(scn, c, [w], [], False)
            alone.append((res.get(0), err.get(0)))
        res, err, sch = C17.play(scn, c, list(range(n)),
                                 [s for s in scn["slices"] if s[0] < n],
                                 scn["lines"])
        c.sched_switches = sch.switches
        c.nontrivial = sch.switches > 0
        for w in range(n):
            t = scn["sessions"][w]["type"]
            r0, e0 = alone[w]
            r1, e1 = res.get(w), err.get(w)
            if e0 is not None:
                c.probe("session-fails-alone")
            need((e0 is None) == (e1 is None) and type(e0) is type(e1),
                 "session-fails-differently",
                 f"{t}: alone {e0!r}, with others {e1!r}")
            if not same(r0, r1):
                c.probe("not-bit-identical")
            need(near(r0, r1), "sessions-influence-each-other",
                 lambda: f"session {w} ({t}): {diff(r0, r1)}")
        for w in range(n):
            q = scn["sessions"][w]
            if q["type"] == "problem" and alone[w][0]:
                C17.own(q, alone[w][0])

    @staticmethod
    def own(q, out):
        """every instance reports its own dimension and keeps its values"""
        k = 0
        first = {}
        for j in range(len(q["ops"])):
            for i in range(j + 1):
                v = out[k]
                k += 1
                o = q["ops"][i]
                if o["dim"] is not None:
                    need(v[0] == o["dim"] and len(v[1]) == o["dim"],
                         "wrong-dimension", f"{o['name']}({o['dim']}) "
                         f"reports {v[0]}, domain {v[1].shape}")
                if i not in first:
                    first[i] = v
                need(same(first[i], v), "instance-changed",
                     lambda: f"{o['name']}: {first[i][:4]} then {v[:4]}")


def near(a, b, tol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return models.close(a, b, tol)
        except Exception:
            return same(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return models.close(np.array([a]), np.array([b]), tol)
    return same(a, b)


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{len(a)} and {len(b)} results"
        for k, (x, y) in enumerate(zip(a, b)):
            if not near(x, y):
                return f"[{k}]" + diff(x, y)
    return f" {str(a)[:150]} and {str(b)[:150]}"


# --------------------------------------------------------------------------
class Pool:
    """everything the caller passes in, with a private copy of each"""

    def __init__(self):
        self.items = {}

    def add(self, name, obj):
        self.items[name] = (obj, freeze(obj))
        return obj

    def check(self, where):
        for n, (obj, old) in self.items.items():
            now = freeze(obj)
            need(now == old, "input-modified",
                 lambda: f"{n} after {where}: {str(obj)[:160]}")


def freeze(o):
    """contents of nested lists/arrays, exact"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarray", o.shape, tuple(freeze(v) for v in o.ravel()))
        return ("array", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if isinstance(o, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in o.items()))
    if isinstance(o, float):
        return ("float", o.hex())
    return (type(o).__name__, repr(o))


def anywhere(f, lines):
    """a failure after a given part of the source lines of a call"""
    return interrupt_at_line(int(f["frac"] * lines), SimMemory
                             if f["exc"] == "memory" else SimInterrupt)


class C19:
    id = "C19"
    runs = {"quick": 4000, "thorough": 75000}
    rule = ("samplers, models, acquisition functions, optimisers and BO "
            "sessions share the caller's lists and arrays over a seeded "
            "sequence of calls, some failing at a seam or source line; every "
            "shared object is compared with its original contents after "
            "every call; non-trivial: at least two calls")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        m = models.gen_model(r, ["GP", "HK", "SK", "CK"])
        m["restart"] = pick(r, 0, 1)
        d = m["dim"]
        scn = {"model": m, "data": [models.gen_data(r, dict(m, kind="HK"))
                                    for _ in range(pick(r, 1, 2))],
               "int_space": chance(r, 0.2),
               "num": pick(r, [3, 6], [4, 4], [5, 9], [2, 7]),
               "num1": pick(r, 4, 6, 9), "kappa": [1.0, 1.96],
               "odd": pick(r, [9, 4], [5, 3], [8, 7]),
               "obj": gen_obj(r), "args": [round(r.uniform(-1, 1), 2)]}
        scn["obj"].pop("bad", None)
        ops = []
        for _ in range(pick(r, 2, 3, 4, 6)):
            k = pick(r, "sf-sample", "mf-sample", "mf-sample", "train",
                     "train", "predict", "ea", "query", "mf-bo", "sf-bo",
                     "cons-bo", "predict", "eval", "problem", "helper")
            o = {"do": k, "s": r.randrange(2 ** 31),
                 "d": r.randrange(len(scn["data"])),
                 "v": r.randrange(1000)}
            if chance(r, 0.3):
                o["fault"] = C19.fault(r)
            ops.append(o)
        scn["ops"] = ops
        return scn

    @staticmethod
    def fault(r):
        if chance(r, 0.4):              # anywhere in the call
            return {"frac": round(r.random(), 4),
                    "exc": pick(r, "interrupt", "memory")}
        at = pick(r, "objective", "linalg", "rng", "nll", "acq", "line",
                  "line")
        if at == "line":
            return {"line": pick(r, 1, 3, 10, 30, 100, 300) + r.randrange(9)}
        return {"at": at, "n": pick(r, 0, 1, 2, 5, 20, 60),
                "do": "raise" if at == "objective" else pick(
                    r, "interrupt", "interrupt")}

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        c.recs = {}
        pool = Pool()
        m = scn["model"]
        d = m["dim"]
        sp = np.array(m["space"], dtype=float)
        if scn["int_space"]:
            sp = np.array([[int(np.floor(a)), int(np.floor(a)) + 4]
                           for a, _ in m["space"]])
            m = dict(m, space=[[float(a), float(b)] for a, b in sp])
        space = pool.add("design space", sp)
        num = pool.add("list of sample sizes", list(scn["num"]))
        init = pool.add("list of initial sample sizes", list(scn["num"]))
        odd = pool.add("list of sample sizes in falling order",
                       list(scn.get("odd") or [9, 4]))
        table = pool.add("the objective's own answers", np.array(
            [[1.5], [np.nan], [0.5], [np.inf]]))
        kappa = pool.add("kappa", list(scn["kappa"]))
        kb = pool.add("kernel bounds", list(m.get("kernel") or [-2.0, 3.0]))
        rb = pool.add("rho bounds", list(m.get("rho_bound") or [0.1, 5.0]))
        theta = pool.add("theta", np.zeros(d))
        args = pool.add("objective args", tuple(scn["args"]))
        datas = []
        for k, g in enumerate(scn["data"]):
            D = models.data(dict(m, kind="HK"), g)
            if m["kind"] == "GP" and k != scn["num1"] % 2:
                D[1] = [y.reshape(-1) for y in D[1]]
            pool.add(f"training points {k}", D[0])
            pool.add(f"responses {k}", D[1])
            datas.append(D)
        P = models.query_points(5, 4, m)
        g = random.Random(scn["num1"] + 31 * len(scn["ops"]))
        for i in range(3):              # some at or beside the boundary
            for j, (lo, hi) in enumerate(m["space"]):
                e = g.choice([None, None, 0.0, 1e-12, 1e-9, 1e-7, -1e-9])
                if e is not None:
                    e *= hi - lo
                    P[i, j] = g.choice([lo + e, hi - e])
        P[3] = datas[0][0][0][0]        # and one known to the model
        P = pool.add("query points", P)
        one = pool.add("one query point", P[0].copy())
        c.opt.update(maxiter=1, end_p=0.7, end_modes=["stall"],
                     de_maxiter=1, de_popsize=2)
        mod = C19.model(lib, m, space, kb, rb, theta)
        pool.check("construction")
        env = dict(lib=lib, m=m, space=space, num=num, init=init, odd=odd,
                   table=table,
                   kappa=kappa, args=args, datas=datas, P=P, one=one,
                   mod=mod, trained=False, c=c, scn=scn, pool=pool, objs={})
        c.nontrivial = len(scn["ops"]) >= 2
        for o in scn["ops"]:
            f = o.get("fault")
            seams.set_global_state(seams.seed_state(o["s"]))
            c.groups.clear()
            try:
                if f and "frac" in f:
                    C19.dry(env, o, C19.step)
                    pool.check("first " + o["do"])
                    with anywhere(f, env["lines"]):
                        C19.step(env, o)
                elif f and "line" in f:
                    with interrupt_at_line(f["line"]):
                        C19.step(env, o)
                else:
                    c.plan([dict(f)] if f else [])
                    C19.step(env, o)
                c.probe("ok-" + o["do"])
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e) and not isinstance(e, Invalid):
                    raise
                c.probe("failed-" + o["do"])
                if isinstance(e, Invalid) or not isinstance(e, INJECTED):
                    c.probe(f"why-{type(e).__name__} {str(e)[:40]}")
            c.plan([])
            pool.check(o["do"])
        c.log("end", len(pool.items))

    @staticmethod
    def dry(env, o, step, *a):
        """the call without the failure: how many lines it has"""
        e = dict(env, objs={})
        with interrupt_at_line(float("inf")) as t:
            step(e, o, *a)
        env["trained"] = e["trained"]
        env["lines"] = t.count
        env["c"].groups.clear()

    @staticmethod
    def model(lib, m, space, kb, rb, theta):
        k = {"optimizer_restart": m["restart"], "noise_prior": m["noise"],
             "optimizer": models.make_opt(lib, m["opt"])}
        if m["kind"] == "GP":
            return lib.GP(design_space=space,
                          kernel=lib.RBF(theta=theta, bounds=kb),
                          regr=getattr(lib, m.get("regr") or "Ordinary")(),
                          **k)
        k["kernel_bound"] = kb
        if m["kind"] in ("SK", "CK"):
            k["rho_bound"] = rb
        if m["kind"] == "SK":
            k["rho_optimize"] = m["rho_optimize"]
            k["rho_method"] = m["rho_method"]
            if m.get("rho_opt"):
                k["rho_optimizer"] = models.make_opt(lib, m["rho_opt"])
        return getattr(lib, m["kind"])(design_space=space, **k)

    @staticmethod
    def get(e, name, build):
        """one object per name, used again by later calls"""
        if name not in e["objs"]:
            e["objs"][name] = build()
        return e["objs"][name]

    @staticmethod
    def step(e, o):
        lib, m, c, v = e["lib"], e["m"], e["c"], o["v"]
        do = o["do"]
        D = e["datas"][o["d"]]
        gp = m["kind"] == "GP"
        if do == "sf-sample":
            n = ["LatinHyperCube", "RandomSampler", "SobolSequence"][v % 3]
            s = C19.get(e, n, lambda: getattr(lib, n)(
                design_space=e["space"]))
            s.get_samples(num_samples=e["scn"]["num1"], seed=o["s"] % 1000)
        elif do == "mf-sample":
            n = ["MFLatinHyperCube", "MFSobolSequence"][v % 2]
            nested = bool(v & 2)
            s = C19.get(e, (n, nested), lambda: getattr(lib, n)(
                design_space=e["space"], num_fidelity=2, nested=nested))
            if v % 5 == 0:          # refused, the list stays as it is
                try:
                    s.get_samples(num_samples=e["odd"], seed=o["s"] % 1000)
                except (AssertionError, ValueError):
                    pass
                e["pool"].check("a refused request")
            s.get_samples(num_samples=e["num"], seed=o["s"] % 1000)
        elif do == "train":
            e["trained"] = False
            if gp:
                Y = D[1][0]
                e["mod"].train(D[0][0], Y)
            else:
                e["mod"].train(D[0], D[1])
            e["trained"] = True
        elif do in ("predict", "eval", "query"):
            if not e["trained"]:
                if gp:
                    e["mod"].train(D[0][0], D[1][0])
                else:
                    e["mod"].train(D[0], D[1])
                e["trained"] = True
                e["pool"].check("train")
            C19.use(e, do, v, gp)
        elif do == "ea":
            a = {"alg": ["PSO", "DE"][v % 2], "pop": 4, "gen": 2, "kw": {}}
            opt = C19.get(e, a["alg"], lambda: ea.make(lib, a))
            ob = Objective(c, e["scn"]["obj"], m["space"])
            if v % 5 == 4:
                opt.run_optimizer(lambda x, *a: e["table"], m["dim"],
                                  e["space"], args=e["args"])
                e["pool"].check("a run on a table")
            opt.run_optimizer(ob, m["dim"], e["space"], args=e["args"])
        elif do == "problem":
            C19.problems(e, v)
        elif do == "helper":
            C19.helpers(e, D, gp)
        else:
            C19.session(e, do, v, o)

    @staticmethod
    def use(e, do, v, gp):
        lib, mod = e["lib"], e["mod"]
        if do == "predict":
            X = [e["P"], e["one"]][v % 2]
            if X.ndim == 1 and not gp and e["m"]["kind"] != "HK":
                X = e["P"]
            if X.ndim == 1:
                X = e["P"][:1]
            mod.predict(X, return_std=bool(v & 2))
            if not gp:
                mod.predict_lf(X, return_std=bool(v & 2))
            return
        if gp:
            n = ["EI", "LCB", "PI"][v % 3]
            acq = C19.get(e, n, lambda: getattr(lib, n)(
                **({"kappa": e["kappa"]} if n == "LCB" else {})))
            if do == "eval":
                acq.eval(e["P"], mod)
                lib.CEI().eval(e["P"], mod, [mod])
            else:
                acq.query(mod)
            return
        acq = C19.get(e, "VFLCB", lambda: lib.VFLCB(kappa=e["kappa"]))
        if do == "eval":
            acq.eval(e["P"], mod, 2.0, v % 2)
            if e["m"]["kind"] != "CK":
                lib.AugmentedEI().eval(e["P"], mod, 2.0, v % 2)
        else:
            acq.query(mf_surrogate=mod, cost_ratio=2.0, fmin=0.0)

    @staticmethod
    def helpers(e, D, gp):
        """the other public methods that take the caller's arrays"""
        lib, mod, P = e["lib"], e["mod"], e["P"]
        s = C19.get(e, "LatinHyperCube", lambda: lib.LatinHyperCube(
            design_space=e["space"]))
        s.scale_samples(P)
        if gp:
            mod.normalize_input(P, e["space"])
            mod.normalize_output(D[1][0])
        else:
            for f, a in (("normalize_input", P),
                         ("normalize_hf_output", D[1][0])):
                f = getattr(mod, f, None)
                if f is not None:
                    f(a)
        e["pool"].check("normalising")
        k = lib.RBF(theta=np.zeros(e["m"]["dim"]), bounds=[-2.0, 3.0])
        k.get_kernel_matrix(P, P)
        k.get_kernel_matrix(P, D[0][0])
        t = np.zeros(e["m"]["dim"])
        k.set_params(t)
        k.get_kernel_matrix(P, P)
        need(not t.any(), "input-modified", "kernel parameters")
        for n in ("Ordinary", "Linear", "Quadratic"):
            r = getattr(lib, n, None)
            if r is not None:
                r()(P)

    @staticmethod
    def problems(e, v):
        lib = e["lib"]
        fam = ["psf", "pmf", "pcf"][v % 3]
        names = PROBLEMS[fam]
        n = names[v % len(names)]
        k = {"num_dim": 2} if n in ("Ackley", "Thevenot") else {}
        p = getattr(getattr(lib, fam), n)(**k)
        dom = arr(p.input_domain)
        X = dom[:, 0] + 0.37 * (dom[:, 1] - dom[:, 0])
        X = np.vstack((X, X + 0.1 * (dom[:, 1] - dom[:, 0])))
        for f in ("f", "hf", "lf", "f_cons"):
            keep = freeze(X)
            try:
                getattr(p, f)(X)
            except NotImplementedError:
                pass
            need(freeze(X) == keep, "input-modified", f"{n}.{f}")
        if fam == "pmf":
            L = [X, X.copy()]
            keep = freeze(L)
            p(L)
            need(freeze(L) == keep, "input-modified", f"{n}()")

    @staticmethod
    def session(e, do, v, o):
        lib, m, c = e["lib"], e["m"], e["c"]
        kind = do.split("-")[0]
        p = {"kind": kind, "space": m["space"],
             "obj": dict(shape="neg", c=0.3, scale=1.0, off=0.0),
             "bias": 1.0, "mix": 0.5, "round": None}
        if kind == "cons":
            p["cons"] = [{"a": [1.0] * m["dim"], "b": 0.4, "step": 0}]
        key = o["s"]
        c.recs[key] = bo.Recorder(c)
        prob = bo.make_problem(p, key, space=e["space"])
        k = {"problem": prob, "seed": o["s"] % 1000,
             "verbose": bool(o.get("print"))}
        if kind == "sf":
            acq = lib.LCB(kappa=e["kappa"])
            opt = lib.BayesUnConsOpt(acquisition=acq,
                                     num_init=e["scn"]["num1"], **k)
        elif kind == "cons":
            opt = lib.BayesConsOpt(acquisition=lib.CEI(),
                                   num_init=e["scn"]["num1"], **k)
        else:
            sn = ["HierarchicalKriging", "ScaledKriging", "CoKriging"][v % 3]
            opt = lib.mfUnConsBayesOpt(
                acquisition=lib.VFLCB(kappa=e["kappa"]), num_init=e["init"],
                surrogate_name=sn, **k)
        e["pool"].check("construction of " + do)
        opt.run_optimizer(max_iter=1, stopping_error=0.5)


PROPS = [C17, C19]
