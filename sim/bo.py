"""C12-C16, C18: Bayesian optimisation sessions and acquisition queries."""
import random

import numpy as np

import seams
import util
from core import (INJECTED, Invalid, Lib, SimFault, SimInterrupt, ctx,
                  interrupt_at_line)
from models import Proxy, close, gen_data, gen_model, gen_train
from models import data as model_data
from models import make as make_model
from models import predictions, query_points
from models import train as model_train
from util import (arr, base_value, chance, gen_space, in_space, need, pick,
                  same, snap)

REAL = ["mfpml.optimization (sf_uncons_bo, sf_cons_bo, mf_uncons_bo, all "
        "acquisition functions, PSO, DE)", "mfpml.models",
        "mfpml.design_of_experiment", "mfpml.problems", "numpy",
        "scipy searches inside their seams"]
STUB = ["the user's objective and constraints (recorded, may fail)",
        "when each scipy search is cut (simulated)",
        "random stream, clock (simulated)"]

BUILTIN = {
    "sf": ["Forrester", "Branin", "Sixhump", "GoldPrice", "Sasena",
           "Hartman3"],
    "cons": ["Branin_1", "Branin_2"],
    "mf": ["Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Sixhump",
           "ContinuousNonlinearCorrelation1D", "PhaseShiftedOscillations",
           "mf_Booth", "mf_Bohachevsky", "mf_CurrinExp", "mf_Hartman3",
           "mf_Discontinuous", "mf_Himmelblau"]}
BMOD = {"sf": "psf", "cons": "pcf", "mf": "pmf"}


# -- the user's problem -------------------------------------------------------
def gen_problem(r, kind):
    if chance(r, 0.25):
        return {"kind": kind, "builtin": pick(r, *BUILTIN[kind])}
    d = pick(r, 1, 1, 2, 2, 3)
    p = {"kind": kind, "space": gen_space(r, d, wide=chance(r, 0.4)),
         "obj": {"shape": pick(r, "sphere", "rastrigin", "valley", "neg",
                               "linear", "hashy"),
                 "c": round(r.random(), 3), "off": pick(
                     r, 0.0, 0.0, -3.0, 100.0, 5.5),
                 "scale": pick(r, 1.0, 1.0, 1e-3, 1e4, 3.7)}}
    if chance(r, 0.3):
        p["round"] = pick(r, 0, 1, 1, 2)
    if chance(r, 0.3):
        p["noisy"] = True
    if chance(r, 0.2):
        p["buffer"] = True
    if kind == "cons":
        p["cons"] = [{"a": [round(r.uniform(-2, 2), 2) for _ in range(d)],
                      "b": pick(r, -3.0, -0.5, 0.0, 0.3, 0.7, 5.0),
                      "step": pick(r, 0, 0, 0.25, 0.5)}
                     for _ in range(pick(r, 1, 1, 2, 3))]
        if chance(r, 0.3):              # in other units
            for g in p["cons"]:
                g["size"] = pick(r, 1.0, 1e-13, 1e-6, 1e7)
    if kind == "mf":
        p["bias"] = pick(r, 0.0, -5.0, 3.0, -0.5)
        p["mix"] = pick(r, 1.0, 0.5, -0.4)
    return p


class Recorder:
    """what the user's functions saw; lives outside the code under test"""

    def __init__(self, c):
        self.c = c
        self.log = []           # [what, rows, values] of completed calls
        self.count = 0
        self.hook = None
        self.nan = False        # a constraint came back without a number


def _values(p, what, x, rec):
    c = ctx()
    xs = np.atleast_2d(np.array(x, dtype=float))
    if p.get("builtin"):
        inst = getattr(getattr(c.lib, BMOD[p["kind"]]), p["builtin"])()
        if what == "f":
            y = inst.f(xs.copy())
        elif what == "c":
            y = inst.f_cons(xs.copy())
        else:
            y = inst.hf(xs.copy()) if what == 0 else inst.lf(xs.copy())
        y = np.array(y, dtype=float)
        return y.reshape(len(xs), -1)
    s = arr(p["space"])
    u = (xs - s[:, 0]) / (s[:, 1] - s[:, 0])
    if what == "c":
        cols = []
        for g in p["cons"]:
            v = u @ np.array(g["a"]) - g["b"] + 0.3 * np.sin(
                7 * np.sum(u, axis=1))
            if g["step"]:
                v = np.round(v / g["step"]) * g["step"]
            cols.append(v * g.get("size", 1.0))
        return np.array(cols).T
    y = base_value(p["obj"], xs, p["space"])
    if what == 1:
        y = p["mix"] * y + p["bias"] * p["obj"]["scale"] * (
            0.5 + np.sum(u, axis=1))
    if p.get("noisy"):
        k = rec.count + np.arange(y.size)
        y = y + 0.3 * p["obj"]["scale"] * np.sin(k * 12.9898)
    if p.get("round") is not None:
        q = p["obj"]["scale"] * 10.0 ** -p["round"]
        y = np.round(y / q) * q
    return y.reshape(-1, 1)


def user_call(p, key, what, x):
    """one call of a function the user supplied"""
    c = ctx()
    rec = c.recs[key]
    if rec.hook is not None:
        rec.hook(what)
    f = c.point("objective")
    xs = np.array(x, dtype=float, copy=True)
    if f and f["do"] == "nan":
        rec.nan = rec.nan or what == "c"
    elif f:
        if f["do"] == "raise":
            c.fire("objective-raises", what=str(what))
            raise SimFault("the user's function failed")
        c.fire("interrupt@objective", what=str(what))
        raise SimInterrupt("injected")
    y = _values(p, what, xs, rec)
    if f and what == "c":
        c.fire("constraint-without-result")
        y[:, int(f["n"]) % y.shape[1]] = np.nan
    rec.count += len(y)
    rec.log.append([what, np.atleast_2d(xs), y.copy()])
    c.log("eval", str(what), xs, y)
    if p.get("scratch") and isinstance(x, np.ndarray):
        x[...] = 0              # uses its argument as scratch space
    if p.get("buffer") == "slice":
        b = rec.__dict__.setdefault("big", {})
        b.setdefault(what, np.zeros((64, y.shape[1])))[:len(y)] = y
        return b[what][:len(y)]
    if p.get("buffer"):
        b = rec.__dict__.setdefault("buf", {})
        k = (what, y.shape)
        if k not in b:
            b[k] = np.zeros(y.shape)
        b[k][:] = y
        return b[k]
    return y


def make_problem(p, key, space=None):
    lib = ctx().lib
    base = lib.pmf.MultiFidelityFunctions if p["kind"] == "mf" \
        else lib.Functions

    class UserProblem(base):
        def __init__(self):
            if p.get("builtin"):
                b = getattr(getattr(lib, BMOD[p["kind"]]), p["builtin"])()
                self.input_domain = np.array(b.input_domain, dtype=float)
                self.optimum = p["optimum"] if "optimum" in p else b.optimum
                self.num_cons = b.num_cons
            else:
                self.input_domain = np.array(p["space"], dtype=float) \
                    if space is None else space
                self.optimum = p.get("optimum")
                self.num_cons = len(p.get("cons", []))
            self.num_dim = len(self.input_domain)

        def f(self, x):
            return user_call(p, key, "f", x)

        def f_cons(self, x):
            return user_call(p, key, "c", x)

        def hf(self, x):
            return user_call(p, key, 0, x)

        def lf(self, x, factor=None):
            return user_call(p, key, 1, x)

        def __reduce__(self):
            return make_problem, (p, key)
    return UserProblem()


# -- sessions -------------------------------------------------------------------
class PlanAcq:
    """a user-written acquisition: proposes by a fixed rule, often points
    that are known already, nearly known, or on the boundary"""

    def __init__(self, a):
        self.a = a

    def _propose(self, sets, space, fid):
        n = sum(len(x) for x in sets)
        q = random.Random(f"{self.a['s']}/{n}")
        sp = arr(space)
        w = sp[:, 1] - sp[:, 0]
        fid = q.randrange(2) if fid else 0
        how = q.choice(self.a["how"])
        x = sp[:, 0] + w * np.array([q.random() for _ in sp])
        if how != "free":
            known = arr(sets[fid if q.random() < 0.7 else q.randrange(
                len(sets))])
            x = known[q.randrange(len(known)) if q.random() < 0.6
                      else -1].copy()
            if how == "near":
                x = x + w * q.choice([1e-9, 1e-7, 1e-3]) * q.choice([-1, 1])
            elif how == "corner":
                x = np.where([q.random() < 0.5 for _ in sp], sp[:, 0],
                             sp[:, 1])
        if self.a.get("np"):        # as an argmin over the levels is
            fid = np.int64(fid)
        return np.clip(x, sp[:, 0], sp[:, 1]), fid

    def query(self, surrogate=None, obj_surrogate=None, cons_surrogate=None,
              mf_surrogate=None, cost_ratio=1.0, fmin=1.0):
        if mf_surrogate is not None:
            x, f = self._propose(
                [mf_surrogate._get_sample_hf, mf_surrogate._get_sample_lf]
                if hasattr(mf_surrogate, "_get_sample_hf") else
                [mf_surrogate.sample_xh, mf_surrogate.sample_xl],
                mf_surrogate.bound, True)
            return self._out(x.reshape(1, -1)), f
        m = surrogate if surrogate is not None else obj_surrogate
        return self._out(self._propose([m.sample_x], m.bounds, False)[0])

    def _out(self, x):
        if not self.a.get("reuse"):
            return x
        if not hasattr(self, "buf"):
            self.buf = np.zeros(x.shape)
        self.buf[...] = x           # the same array at every proposal
        return self.buf


def gen_plan(r):
    return {"acq": "plan", "s": r.randrange(2 ** 31),
            "how": pick(r, ["free"], ["free", "known"], ["known"],
                        ["free", "near", "known", "corner"]),
            "np": chance(r, 0.3)}


def gen_acq(r, kind, surrogate=None):
    if kind == "sf":
        a = {"acq": pick(r, "EI", "LCB", "PI")}
        if a["acq"] == "LCB" and chance(r, 0.4):
            a["kappa"] = pick(r, [1.0, 3.0], [1.0, 0.0], [0.5, 2.0])
    elif kind == "cons":
        a = {"acq": "CEI"}
    else:
        a = {"acq": {"HierarchicalKriging":
                     pick(r, "AugmentedEI", "VFEI", "VFLCB", "VFLCB",
                          "ExtendedPI"),
                     "ScaledKriging": pick(r, "AugmentedEI", "VFLCB",
                                           "ExtendedPI"),
                     "CoKriging": pick(r, "AugmentedEI", "VFLCB"),
                     }[surrogate]}
        if a["acq"] == "VFLCB" and chance(r, 0.4):
            a["kappa"] = pick(r, [1.0, 3.0], [1.0, 0.0], [0.5, 2.0])
    if kind != "mf" and chance(r, 0.35):
        a["opt"] = {"alg": pick(r, "PSO", "DE"), "pop": pick(r, 4, 6, 9),
                    "gen": pick(r, 1, 2, 5)}
    return a


def make_acq(lib, a):
    if a["acq"] == "plan":
        return PlanAcq(a)
    k = {}
    if a.get("opt"):
        o = a["opt"]
        k["optimizer"] = getattr(lib, o["alg"])(num_pop=o["pop"],
                                                num_gen=o["gen"])
    if a.get("kappa"):
        k["kappa"] = list(a["kappa"])
    return getattr(lib, a["acq"])(**k)


def gen_session(r, kind):
    p = gen_problem(r, kind)
    s = {"kind": kind, "problem": p, "seed_": r.randrange(2 ** 31),
         "verbose": chance(r, 0.3)}
    if kind == "mf":
        s["surrogate"] = pick(r, "HierarchicalKriging", "HierarchicalKriging",
                              "ScaledKriging", "CoKriging")
        nh = r.randrange(4, 8)
        s["init"] = [nh, nh + r.randrange(0, 7)]
        s["cost"] = pick(r, 1.0, 2.0, 5.0, 0.2, 10.0)
    else:
        s["init"] = r.randrange(4, 10)
    s["acq"] = gen_acq(r, kind, s.get("surrogate"))
    if chance(r, 0.25):
        s["acq"] = gen_plan(r)
    s["opt"] = {"maxiter": pick(r, 1, 1, 2), "end_p": pick(r, 0.7, 0.9, 0.95, 1.0),
                "de_maxiter": pick(r, 0, 1, 2, 3), "de_popsize": pick(
                    r, 2, 3, 4), "modes": pick(
                        r, ["stall"], ["stall", "early"],
                        ["stall", "stall", "stall-nan", "inf"])}
    if chance(r, 0.1):
        s["opt"]["polish"] = True
    if chance(r, 0.25):
        s["extreme"] = pick(r, 0.02, 0.2)
    return s


CLS = {"sf": "BayesUnConsOpt", "cons": "BayesConsOpt",
       "mf": "mfUnConsBayesOpt"}


def search_mode(c, s):
    o = s["opt"]
    c.opt.update(maxiter=o["maxiter"], end_p=o["end_p"],
                 end_modes=o["modes"], de_maxiter=o["de_maxiter"],
                 de_popsize=o["de_popsize"],
                 de_polish=o.get("polish", False),
                 prng=random.Random(s["seed_"] ^ 0x77))
    c.rng_mode = {"extreme": 0.0}
    c.groups.clear()


def create(c, s, key=0, **kw):
    """construct a session; a constant initial design is not a usable run"""
    lib = c.lib
    search_mode(c, s)
    c.recs.setdefault(key, Recorder(c))
    prob = kw.pop("prob", None) or make_problem(s["problem"], key)
    acq = kw.pop("acq", None) or make_acq(lib, s["acq"])
    init = kw.pop("init", None)
    if init is None:
        init = snap(s["init"])
    k = {"problem": prob, "acquisition": acq, "num_init": init,
         "seed": s["seed_"], "verbose": s["verbose"]}
    if s["kind"] == "mf":
        k["surrogate_name"] = s["surrogate"]
    rec = c.recs[key]

    def flatness(what, p=s["problem"]):
        pass
    try:
        opt = getattr(lib, CLS[s["kind"]])(**k)
    except INJECTED:
        raise
    except np.linalg.LinAlgError:
        raise Invalid("initial design not trainable")
    except Exception:
        if any(np.ptp(e[2][:, j]) == 0 for e in rec.log
               for j in range(e[2].shape[1]) if len(e[2]) > 1):
            raise Invalid("constant responses")
        raise
    if any(np.ptp(e[2][:, j]) == 0 for e in rec.log
           for j in range(e[2].shape[1]) if len(e[2]) > 1):
        raise Invalid("constant responses")
    return opt


def go(opt, s, iters, tol=None):
    k = {"max_iter": iters}
    if tol is not None:
        k["stopping_error"] = tol
    if s["kind"] == "mf":
        k["cost_ratio"] = s["cost"]
    return opt.run_optimizer(**k)


def gen_bo_fault(r, kind):
    at = pick(r, "objective", "objective", "objective", "minimize", "nll",
              "linalg", "de", "acq", "rng", "stdout")
    do = {"stdout": ["full", "full", "pipe", "closed", "interrupt"],
          "objective": ["raise", "raise", "interrupt"],
          "minimize": ["interrupt", "memory"], "rng": ["interrupt"],
          "de": ["interrupt", "memory"], "acq": ["interrupt", "memory",
                                                 "linalg"],
          "nll": ["interrupt", "memory", "linalg"],
          "linalg": ["linalg", "interrupt", "memory"]}[at]
    n = {"stdout": (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16),
         "objective": (0, 1, 1, 2, 3, 4), "minimize": (0, 3, 10, 11, 12, 30),
         "nll": (0, 5, 30, 80, 200), "linalg": (0, 10, 100, 400, 1500),
         "de": (0, 1, 2, 3), "acq": (0, 3, 17, 60),
         "rng": (0, 2, 10, 40, 150)}[at]
    return {"at": at, "n": pick(r, *n), "do": pick(r, *do)}


def gen_runs(r, kind, tier):
    ops = []
    for _ in range(pick(r, 1, 2, 2, 3, 4)):
        o = {"iters": pick(r, 0, 1, 2, 3, 4)}
        if chance(r, 0.6):
            o["fault"] = gen_bo_fault(r, kind)
        ops.append(o)
    if kind == "cons" and chance(r, 0.15):
        # a constraint without a result; no model can be trained afterwards
        ops[-1] = {"iters": pick(r, 1, 2, 4), "fault": {
            "at": "objective", "n": pick(r, 1, 3), "do": "nan"}}
        ops += [{"iters": 1}] * pick(r, 0, 1)
    return ops


def opt_known(r, p):
    """a known optimum that runs sometimes reach"""
    if p.get("builtin"):
        if chance(r, 0.3):
            p["optimum"] = None
        return
    o = p["obj"]
    k = pick(r, "none", "none", "true", "off", "zero", "scaled")
    if k == "none":
        return
    if k == "scaled":           # tiny or huge values, optimum included
        o["off"] = 0.0
        o["scale"] = pick(r, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e6, 1e12)
        p["optimum"] = o["scale"] * pick(r, -1.0, -0.5, 0.02, 0.3, 1.0)
        return
    if k == "zero":
        p["optimum"] = 0.0
    elif k == "true":
        p["optimum"] = o["off"]
    else:
        p["optimum"] = round(o["off"] + o["scale"] * pick(
            r, 0.05, 0.2, 0.5, 1.0, -1.0), 6)


# -- what must hold whenever control returns --------------------------------------
def completed(kind, rec):
    """completed evaluations, in order: list of (what, X rows, Y rows)"""
    if kind != "cons":
        return [(w, X, Y) for w, X, Y in rec.log]
    out = []
    pend = None
    for w, X, Y in rec.log:
        if w == "f":
            pend = (X, Y)
        else:
            need(pend is not None and same(pend[0], X),
                 "constraints-evaluated-elsewhere",
                 "objective and constraints were not evaluated together")
            out.append(("fc", X, np.hstack((pend[1], Y))))
            pend = None
    return out


def check_state(kind, opt, rec, s, c):
    ev = completed(kind, rec)
    space = s["problem"].get("space")
    dom = arr(space) if space is not None else arr(opt.problem.input_domain)
    for w, X, Y in ev:
        need(in_space(X, dom), "outside-design-space", f"{X.tolist()}")
    {"sf": state_sf, "cons": state_cons, "mf": state_mf}[kind](
        opt, ev, s, c)


def rows_equal(got, want, cls, what):
    got, want = arr(got), arr(want)
    if got.ndim == 1:
        got = got.reshape(-1, 1)
    need(got.shape == want.shape, cls,
         lambda: f"{what}: {got.shape[0]} recorded rows, "
         f"{want.shape[0]} completed evaluations")
    need(np.array_equal(got, want, equal_nan=True), cls,
         lambda: f"{what}: recorded {got[~np.all(got == want, axis=1)][:2]} "
         f"really {want[~np.all(got == want, axis=1)][:2]}")


def check_best(opt, X, Y, hist, c, none_ok=False):
    """incumbent and history against rows (X, Y) that may be incumbents"""
    best = float(np.ravel(opt.best)[0])
    if len(Y) == 0:
        need(best == np.inf and opt.best_x is None, "incumbent-without-"
             "feasible", f"best {best} at {opt.best_x}")
        c.probe("nothing-feasible")
    else:
        m = float(np.min(Y))
        need(best == m, "incumbent-not-lowest", f"best {best} lowest {m}")
        bx = np.atleast_2d(arr(opt.best_x))
        need(bx.shape[1] == X.shape[1], "incumbent-shape", f"{bx.shape}")
        need(len(bx) >= 1, "incumbent-shape", "no point")
        for b in bx:
            need(any(np.array_equal(X[i], b) and Y[i] == m
                     for i in range(len(Y))), "incumbent-point-wrong",
                 f"{b} did not give {m}")
    h = [float(np.ravel(v)[0]) for v in opt.history_best]
    need(len(h) >= 1, "history-empty", "")
    need(all(b <= a for a, b in zip(h, h[1:])), "history-increases", f"{h}")
    need(h[-1] == best, "history-not-at-incumbent", f"{h[-1]} best {best}")
    need(len(h) == len(hist) and h == hist, "history-wrong",
         lambda: f"{h} expected {hist}")
    hx = opt.history_best_x
    need(len(hx) == len(h), "history-wrong", f"{len(hx)} points, {len(h)}")
    for v, x in zip(h, hx):
        if v == np.inf:
            need(x is None, "history-point-wrong", f"{x} for infinity")
            continue
        for b in np.atleast_2d(arr(x)):
            need(any(Y[i] == v and np.array_equal(X[i], b)
                     for i in range(len(Y))), "history-point-wrong",
                 f"{b} did not give {v}")


def running(vals, n0):
    """best-so-far after the initial design and after each later row"""
    out = []
    for k in range(n0, len(vals) + 1):
        out.append(float(np.min(vals[:k])))
    return out


def state_sf(opt, ev, s, c):
    X = np.vstack([e[1] for e in ev])
    Y = np.vstack([e[2] for e in ev])
    rows_equal(opt.sample, X, "points-not-recorded", "points")
    rows_equal(opt.response, Y, "responses-not-recorded", "responses")
    check_best(opt, X, Y.ravel(), running(Y.ravel(), s["init"]), c)


def state_cons(opt, ev, s, c):
    X = np.vstack([e[1] for e in ev])
    Y = np.vstack([e[2] for e in ev])
    rows_equal(opt.sample, X, "points-not-recorded", "points")
    rows_equal(opt.obj_response, Y[:, :1], "responses-not-recorded",
               "objective")
    rows_equal(opt.cons_response, Y[:, 1:], "responses-not-recorded",
               "constraints")
    feas = np.all(Y[:, 1:] <= 0, axis=1)
    if not feas[np.argmin(Y[:, 0])]:
        c.probe("lowest-is-infeasible")
    v = np.where(feas, Y[:, 0], np.inf)
    check_best(opt, X[feas], Y[feas, 0], running(v, s["init"]), c)


def state_mf(opt, ev, s, c):
    n0 = 2
    for lv in (0, 1):
        Xs = np.vstack([e[1] for e in ev if e[0] == lv])
        Ys = np.vstack([e[2] for e in ev if e[0] == lv])
        rows_equal(opt.sample[lv], Xs, "points-not-recorded",
                   f"fidelity {lv}")
        rows_equal(opt.response[lv], Ys, "responses-not-recorded",
                   f"fidelity {lv}")
    later = ev[n0:]
    order = [int(e[0]) for e in later]
    got = [int(v) for v in opt.fidelity_query_order]
    need(got == order, "fidelity-log-wrong", f"{got} really {order}")
    for lv in order:
        c.probe(f"fidelity-{lv}-queried")
    X = np.vstack([e[1] for e in ev if e[0] == 0])
    Y = np.vstack([e[2] for e in ev if e[0] == 0]).ravel()
    lo = np.vstack([e[2] for e in ev if e[0] == 1])
    if np.min(lo) < np.min(Y):
        c.probe("low-fidelity-lower")
    first = [e for e in ev if e[0] == 0][0][2]
    h = [float(np.min(first))]
    for e in later:
        h.append(min(h[-1], float(e[2][0, 0])) if e[0] == 0 else h[-1])
    check_best(opt, X, Y, h, c)


def is_failure(e):
    """an injected failure, or a numerical one, possibly wrapped by scipy"""
    while e is not None:
        if isinstance(e, INJECTED + (np.linalg.LinAlgError,)):
            return True
        e = e.__cause__ or e.__context__
    return False


def drive(kind, scn, c):
    """a session with faults; the state is checked after every call"""
    c.lib = Lib()
    c.recs = {}
    s = scn["session"]
    c.nontrivial = False
    opt = create(c, s)
    rec = c.recs[0]
    c.rng_mode = {"extreme": s.get("extreme", 0.0)}
    check_state(kind, opt, rec, s, c)
    for o in scn["ops"]:
        before = len(completed(kind, rec))
        f = o.get("fault")
        c.plan([dict(f)] if f else [])
        failed = None
        try:
            go(opt, s, o["iters"], scn.get("tol"))
        except BaseException as e:          # noqa: BLE001
            # a model cannot be trained on NaN, in this call or a later one
            if not is_failure(e) and not (rec.nan and isinstance(
                    e, Exception)):
                raise
            failed = e
        c.plan([])
        c.groups.clear()
        ev = completed(kind, rec)
        new = ev[before:]
        c.nontrivial = c.nontrivial or bool(new) or failed is not None
        need(len(new) <= o["iters"], "too-many-evaluations",
             f"{len(new)} in {o['iters']} iterations")
        for w, X, Y in new:
            need(len(X) == 1, "several-points-per-iteration", f"{len(X)}")
        check_state(kind, opt, rec, s, c)
        c.probe("call-completed" if failed is None else "call-failed")


class _Drive:
    real = REAL
    stub = STUB

    @classmethod
    def gen(cls, r, tier, i):
        s = gen_session(r, cls.kind)
        scn = {"session": s, "ops": gen_runs(r, cls.kind, tier)}
        if chance(r, 0.3):
            opt_known(r, s["problem"])
            scn["tol"] = pick(r, 0.01, 0.3, 1e-6)
        elif cls.kind == "mf":
            scn["tol"] = 1e-12
        return scn

    @classmethod
    def run(cls, scn, c):
        drive(cls.kind, scn, c)


class C12(_Drive):
    id = "C12"
    kind = "sf"
    runs = {"quick": 2800, "thorough": 45000}
    rule = ("a single-fidelity BO session of several run calls with failures "
            "and interrupts injected at the objective, the proposal search, "
            "the training, the linear algebra or the random stream; the "
            "records are compared with the evaluation log after every call; "
            "non-trivial: at least one new evaluation or failure")


class C13(_Drive):
    id = "C13"
    kind = "cons"
    runs = {"quick": 1400, "thorough": 24000}
    rule = ("a constrained BO session of several run calls with failures and "
            "interrupts injected at objective, constraints, proposal search "
            "or training; the records are compared with the evaluation log "
            "after every call; non-trivial: at least one new evaluation or "
            "failure")


class C14(_Drive):
    id = "C14"
    kind = "mf"
    runs = {"quick": 1400, "thorough": 20000}
    rule = ("a multi-fidelity BO session (three surrogates, four "
            "acquisitions) of several run calls with failures and interrupts "
            "injected at either fidelity's objective, the proposal search or "
            "the training; the records are compared with the evaluation log "
            "after every call; non-trivial: at least one new evaluation or "
            "failure")


# --------------------------------------------------------------------------
def points_of(kind, rec):
    return [(str(w), X) for w, X, Y in rec.log]


class C15:
    id = "C15"
    runs = {"quick": 900, "thorough": 13000}
    rule = ("the same session run twice: once in one call, once with another "
            "ambient random state and clock, after other sessions, with the "
            "budget split and (half of the runs) pickled and restored with "
            "the random state into freshly imported modules; the evaluated "
            "points must be identical; non-trivial: at least two iterations")
    real = REAL + ["pickle"]
    stub = STUB + ["process restart (modules purged and imported again, "
                   "ambient state replaced)"]

    @staticmethod
    def gen(r, tier, i):
        kind = pick(r, "sf", "sf", "cons", "mf", "mf")
        s = gen_session(r, kind)
        parts = [pick(r, 0, 1, 1, 2, 3) for _ in range(pick(r, 1, 2, 3, 4))]
        if sum(parts) == 0:
            parts[0] = 2
        scn = {"session": s, "parts": parts,
               "restart": [chance(r, 0.5) for _ in parts],
               "ambient2": r.randrange(2 ** 31),
               "clock2": pick(r, "tick", "jump", "frozen"),
               "earlier": chance(r, 0.5),
               "between": pick(r, None, None, "clock", "predict", "other")}
        if scn["earlier"] or scn["between"] == "other":
            scn["other"] = gen_session(r, pick(r, "sf", "cons", "mf"))
        return scn

    @staticmethod
    def run(scn, c):
        s = scn["session"]
        kind = s["kind"]
        tol = 1e-12 if kind == "mf" else None
        c.lib = Lib()
        c.recs = {}
        n = sum(scn["parts"])
        c.nontrivial = n >= 2
        opt = create(c, s, 0)
        ok = True
        try:
            go(opt, s, n, tol)
        except np.linalg.LinAlgError:
            c.probe("linalg-skip")
            ok = False
        a = points_of(kind, c.recs[0])
        # the same session in other circumstances (another process)
        c.lib = Lib()
        c.clock_mode = scn["clock2"]
        seams.set_global_state(seams.seed_state(scn["ambient2"]))
        if scn["earlier"]:
            C15.other(scn["other"], c, 7)
        opt = create(c, s, 1)
        for k, (part, re) in enumerate(zip(scn["parts"], scn["restart"])):
            if k:
                C15.between(scn, c, opt, s, k)
                if re:
                    opt = C15.restart(c, opt)
            try:
                go(opt, s, part, tol)
            except np.linalg.LinAlgError:
                need(not ok, "not-reproducible", "only one run failed")
                break
        b = points_of(kind, c.recs[1])
        need(len(a) == len(b), "not-reproducible",
             f"{len(a)} and {len(b)} evaluations")
        for i, ((wa, xa), (wb, xb)) in enumerate(zip(a, b)):
            if not same(xa, xb):
                c.probe("not-bit-identical")
            need(wa == wb and close(xa, xb), "not-reproducible",
                 lambda: f"evaluation {i}: {wa} {xa.tolist()} and "
                 f"{wb} {xb.tolist()}")

    @staticmethod
    def other(o, c, key):
        keep = dict(c.opt)
        try:
            other = create(c, o, key)
            go(other, o, 1, 1e-12 if o["kind"] == "mf" else None)
            c.probe("other-session")
        except (np.linalg.LinAlgError, Invalid):
            pass
        c.opt.clear()
        c.opt.update(keep)
        c.groups.clear()

    @staticmethod
    def between(scn, c, opt, s, k):
        """things between two calls that use no random numbers of ours"""
        how = scn["between"]
        if how == "clock":
            c.clock += 1e6
        elif how == "predict":
            m = opt.obj_surrogate if s["kind"] == "cons" else opt.surrogate
            m.predict(arr(opt.problem.input_domain).mean(axis=1)
                      .reshape(1, -1), return_std=True)
        elif how == "other":
            st = seams.get_global_state()
            C15.other(scn["other"], c, 100 + k)
            seams.set_global_state(st)

    @staticmethod
    def restart(c, opt):
        blob = util.dumps(opt)
        st = seams.get_global_state()
        del opt
        c.fire("crash-and-restart")
        c.lib = Lib()                       # a new process
        seams.reset_process_state(c.prng.getrandbits(31))
        c.groups.clear()
        seams.set_global_state(st)
        return util.loads(blob)


# --------------------------------------------------------------------------
class C16:
    id = "C16"
    runs = {"quick": 4500, "thorough": 75000}
    rule = ("proposals of every acquisition function on trained models with "
            "the search cut at a seeded point, extreme random draws or a "
            "user-supplied optimiser, one acquisition object serving one or "
            "two problems; the proposal is compared with every candidate the "
            "query examined; non-trivial: at least two candidates with "
            "different values")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        kind = pick(r, "sf", "sf", "cons", "mf", "mf", "mf")
        k = pick(r, "HK", "HK", "SK", "CK")
        if kind == "mf":
            name = {"HK": "HierarchicalKriging", "SK": "ScaledKriging",
                    "CK": "CoKriging"}[k]
            a = gen_acq(r, "mf", name)
        else:
            a = gen_acq(r, kind)
        # the same acquisition may serve another problem
        return {"kind": kind, "acq": a, "parts": [
            C16.part(r, kind, k) for _ in range(pick(r, 1, 1, 1, 2))]}

    @staticmethod
    def part(r, kind, k):
        m = gen_model(r, [k if kind == "mf" else "GP"])
        ms = [m]
        if kind == "cons":
            for _ in range(pick(r, 1, 1, 2, 3)):
                ms.append(dict(gen_model(r, ["GP"]), dim=m["dim"],
                               space=m["space"]))
        for x in ms:
            x["opt"] = None
            x["restart"] = 0
            x["rho_optimize"] = False
        tr = []
        for x in ms:
            t = gen_train(r, x)
            t["end_p"] = 0.0
            t["maxiter"] = pick(r, 1, 2, 6)
            tr.append(t)
        return {"models": ms, "trains": tr,
                "cost": pick(r, 1.0, 2.0, 5.0, 0.2), "queries": [
                    {"np": r.randrange(2 ** 31), "maxiter": pick(
                        r, 0, 1, 2, 3, 6), "popsize": pick(r, 2, 3, 5),
                     "extreme": pick(r, 0.0, 0.0, 0.05, 0.3)}
                    for _ in range(pick(r, 1, 1, 2))],
                "fmin": pick(r, "best", "best", "low")}

    @staticmethod
    def run(scn, c):
        lib = c.lib = Lib()
        kind = scn["kind"]
        acq = make_acq(lib, scn["acq"])
        seen = []
        real_eval = acq.eval
        fid_of = C16.fidelity
        now = {"dim": 1}

        def shadow(x, *a, **k):
            y = real_eval(x, *a, **k)
            xx = np.atleast_2d(np.array(x, dtype=float))
            if xx.shape[1] != now["dim"]:
                xx = xx.reshape(-1, now["dim"])
            yy = np.array(y, dtype=float).ravel()
            fid = fid_of(kind, a, k)
            if len(yy) == len(xx):
                for i in range(len(yy)):
                    seen.append((fid, xx[i].copy(), float(yy[i])))
            else:
                c.probe("odd-acquisition-shape")
            return y
        acq.eval = shadow
        c.nontrivial = False
        for part in scn["parts"]:
            now["dim"] = part["models"][0]["dim"]
            C16.one(c, lib, kind, acq, seen, part)

    @staticmethod
    def one(c, lib, kind, acq, seen, part):
        mods, Ds = [], []
        for m, t in zip(part["models"], part["trains"]):
            mod = make_model(lib, m)
            D = model_data(m, t["data"])
            try:
                model_train(c, m, mod, D, t)
            except np.linalg.LinAlgError:
                raise Invalid("model not trainable")
            mods.append(mod)
            Ds.append(D)
        m = part["models"][0]
        P = query_points(1, 3, m)
        for q in part["queries"]:
            before = [predictions(mo, mm, P)
                      for mo, mm in zip(mods, part["models"])]
            del seen[:]
            seams.set_global_state(seams.seed_state(q["np"]))
            c.opt.update(de_maxiter=q["maxiter"], de_popsize=q["popsize"],
                         de_polish=False)
            c.rng_mode = {"extreme": q["extreme"]}
            fid = None
            if kind == "sf":
                x = acq.query(mods[0])
            elif kind == "cons":
                x = acq.query(mods[0], mods[1:])
            else:
                y = Ds[0][1][0]
                fmin = float(np.min(y)) - (
                    float(np.std(y)) if part["fmin"] == "low" else 0.0)
                x, fid = acq.query(mf_surrogate=mods[0],
                                   cost_ratio=part["cost"], fmin=fmin)
            c.rng_mode = {"extreme": 0.0}
            c.log("proposal", arr(x), str(fid))
            C16.judge(c, kind, m, list(seen), arr(x), fid)
            after = [predictions(mo, mm, P)
                     for mo, mm in zip(mods, part["models"])]
            need(same(before, after), "query-changed-the-model", "")

    @staticmethod
    def fidelity(kind, a, k):
        if kind != "mf":
            return None
        if "fidelity" in k:
            return k["fidelity"]
        return a[-1] if a else None

    @staticmethod
    def judge(c, kind, m, seen, x, fid):
        x = np.atleast_2d(x)
        need(x.shape == (1, m["dim"]), "proposal-shape", f"{x.shape}")
        need(in_space(x, m["space"]), "outside-design-space", f"{x}")
        if kind == "mf":
            need(fid in (0, 1), "unknown-fidelity", f"{fid}")
        vals = np.array([v for _, _, v in seen])
        if len(vals) < 2 or np.any(np.isnan(vals)):
            c.probe("nan-or-no-candidates")
            return
        if np.any(np.isfinite(vals)) and \
                np.ptp(vals[np.isfinite(vals)]) > 0:
            c.nontrivial = True
        s = arr(m["space"])
        tol = 1e-12 * np.maximum(np.max(np.abs(s), axis=1), 1e-300)
        mine = [v for f, xx, v in seen
                if (f is None or f == fid)
                and np.all(np.abs(xx - x[0]) <= tol)]
        need(mine, "proposal-never-examined",
             lambda: f"{x[0]} fidelity {fid}")
        best = float(np.min(vals))
        got = min(mine)
        need(got <= best, "better-candidate-ignored",
             lambda: f"proposed {x[0]} fidelity {fid} value {got!r}, best "
             f"examined {best!r} at {seen[int(np.argmin(vals))]}")


# --------------------------------------------------------------------------
class C18:
    id = "C18"
    runs = {"quick": 1600, "thorough": 24000}
    rule = ("BO sessions of all three kinds with known and unknown optimum, "
            "several tolerances and budgets, some calls failing; iterations "
            "are counted against the evaluation log; non-trivial: a call "
            "with budget left to decide about")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        kind = pick(r, "sf", "cons", "mf")
        s = gen_session(r, kind)
        opt_known(r, s["problem"])
        if chance(r, 0.4) and not s["problem"].get("builtin"):
            s["problem"]["round"] = pick(r, 0, 1)
        tol = pick(r, 0.999, 0.5, 0.3, 0.1, 0.01, 1e-6)
        ops = []
        for _ in range(pick(r, 1, 2, 3)):
            o = {"iters": pick(r, 0, 1, 2, 3, 5)}
            if chance(r, 0.2):
                o["fault"] = {"at": "objective", "n": pick(r, 0, 1, 2),
                              "do": pick(r, "raise", "interrupt")}
            if chance(r, 0.2):
                o["tol"] = pick(r, 0.5, 0.1, 1e-4)
            ops.append(o)
        return {"session": s, "tol": tol, "ops": ops}

    @staticmethod
    def run(scn, c):
        c.lib = Lib()
        c.recs = {}
        s = scn["session"]
        kind = s["kind"]
        opt = create(c, s)
        rec = c.recs[0]
        known = opt.problem.optimum
        c.nontrivial = False

        def err(ev):
            """(error, known) of the incumbent after these evaluations"""
            if kind == "sf":
                b = float(np.min(np.vstack([e[2] for e in ev])))
            elif kind == "cons":
                Y = np.vstack([e[2] for e in ev])
                ok = np.all(Y[:, 1:] <= 0, axis=1)
                if not np.any(ok):
                    return np.inf
                b = float(np.min(Y[ok, 0]))
            else:
                b = float(np.min(np.vstack([e[2] for e in ev
                                            if e[0] == 0])))
            return abs(b - known) / (abs(known) if known else 1.0)

        for o in scn["ops"]:
            tol = o.get("tol", scn["tol"])
            n0 = len(completed(kind, rec))
            f = o.get("fault")
            c.plan([dict(f)] if f else [])
            c.nontrivial = c.nontrivial or o["iters"] > 0
            failed = False
            try:
                go(opt, s, o["iters"], tol)
            except INJECTED:
                failed = True
            except np.linalg.LinAlgError:
                c.probe("linalg-skip")
                return
            c.plan([])
            ev = completed(kind, rec)
            done = len(ev) - n0
            need(done <= o["iters"], "budget-exceeded",
                 f"{done} evaluations, budget {o['iters']}")
            if known is not None:
                for k in range(n0, len(ev)):
                    e = err(ev[:k])
                    need(not (e < tol * (1 - 1e-9)), "went-on-after-optimum",
                         f"error {e} < {tol} before evaluation {k - n0 + 1}")
                    c.probe("went-on-rightly")
            if failed:
                continue
            if done < o["iters"]:
                need(known is not None, "stopped-too-early",
                     f"optimum unknown, {done} of {o['iters']}")
                e = err(ev)
                need(e <= tol * (1 + 1e-9), "stopped-too-early",
                     f"error {e} tolerance {tol}, {done} of {o['iters']}")
                c.probe("stopped-by-tolerance")
            else:
                c.probe("used-whole-budget")


PROPS = [C12, C13, C14, C15, C16, C18]
