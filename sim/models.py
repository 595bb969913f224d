"""C09-C11: single- and multi-fidelity surrogate models."""
import random

import numpy as np

import seams
from core import INJECTED, Lib, SimInterrupt, ctx, interrupt_at_line
from util import arr, chance, gen_space, need, pick, same, snap

REAL = ["mfpml.models (gaussian_process, hierarchical_kriging, "
        "scale_kriging, co_kriging, kernels, basis_functions)",
        "mfpml.optimization.evolutionary_algorithms (as hyperparameter "
        "search)", "numpy", "scipy L-BFGS-B inside its seam"]
STUB = ["how each scipy search ends and when it is cut (simulated)",
        "random stream, clock (simulated)",
        "failures of the user, memory, linear algebra (injected)"]

KINDS = ["GP", "HK", "SK", "CK"]


# -- scenario parts ----------------------------------------------------------
def gen_opt(r, p=0.25):
    """a user-supplied hyperparameter optimiser"""
    if not chance(r, p):
        return None
    k = pick(r, "PSO", "DE", "random")
    return {"alg": k, "pop": pick(r, 4, 5, 8), "gen": pick(r, 1, 2, 4)}


def gen_model(r, kinds=KINDS):
    k = pick(r, *kinds)
    d = pick(r, 1, 1, 2, 2, 3)
    m = {"kind": k, "dim": d, "space": gen_space(r, d, wide=chance(r, 0.5)),
         "opt": gen_opt(r), "restart": pick(r, 0, 1, 2, 3, 5),
         "noise": pick(r, 0.0, 0.0, 0.0, 0.01, 0.3, None, None)}
    if chance(r, 0.1):
        m["restart"] = None            # keep the default
    if k == "GP":
        m["regr"] = pick(r, None, "Ordinary", "Linear", "Quadratic")
        if chance(r, 0.3):
            m["kernel"] = pick(r, [-1, 2], [0, 1.5], [-3, 1])
    if k in ("HK", "CK", "SK") and chance(r, 0.4):
        m["kernel"] = pick(r, [-1.0, 2.0], [0.0, 1.5], [-3.0, 1.0])
    if k == "SK":
        m["rho_optimize"] = chance(r, 0.5)
        m["rho_method"] = pick(r, "error", "error", "bumpiness")
        if m["rho_optimize"] and chance(r, 0.4):
            m["rho_opt"] = gen_opt(r) or \
                {"alg": pick(r, "PSO", "DE"), "pop": 4, "gen": 2, "raw": True}
            if m["rho_method"] == "bumpiness":
                m["rho_opt"].update(pop=4, gen=1)
        if chance(r, 0.5):
            m["rho_bound"] = pick(r, [0.1, 5.0], [0.5, 1.5], [-2.0, 2.0])
        if chance(r, 0.3):
            m["own"] = True            # own lf and discrepancy models
    if k == "CK" and chance(r, 0.3):
        m["rho_bound"] = pick(r, [0.1, 5.0], [0.5, 1.5])
    return m


def gen_data(r, m):
    d = m["dim"]
    lo = {None: 4, "Ordinary": 4, "Linear": d + 4,
          "Quadratic": (d + 1) * (d + 2) // 2 + 3}[m.get("regr")]
    g = {"s": r.randrange(2 ** 31), "n": lo + r.randrange(6),
         "scale": pick(r, 1.0, 1.0, 50.0, 1e-3, 1e4),
         "off": pick(r, 0.0, 0.0, 7.0, -300.0), "freq": pick(r, 1.0, 3.0, 8.0)}
    if m["kind"] != "GP":
        g["nl"] = g["n"] + r.randrange(6)
        g["cheap"] = pick(r, 1.0, 0.5, -0.7)
        g["nest"] = chance(r, 0.3)
    if chance(r, 0.3):
        g["noisy"] = True
    if chance(r, 0.25):
        g["form"] = pick(r, "flat", "flat", "fortran", "strided")
    return g


def shaped(a, form):
    """the same numbers in another memory layout"""
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "strided":
        b = np.full((2 * a.shape[0], a.shape[1] + 1), 77.0)
        b[::2, :-1] = a
        return b[::2, :-1]
    return a


def derive(r, m, g):
    """data as a session would change it: part of it stays the same"""
    g = dict(g)
    how = pick(r, "responses", "points", "low", "low", "high", "grow",
               "grow-low", "grow-high", "scale", "same", "permute")
    if how in ("responses", "points", "low", "high"):
        key = {"responses": "sf", "points": pick(r, "sh", "sl"),
               "low": "sl", "high": "sh"}[how]
        g[key] = r.randrange(2 ** 31)
        g.pop("nest", None)
    elif how == "scale":
        g["scale"] = pick(r, 2.0, 30.0, 0.01)
        g["off"] = pick(r, 0.0, 5.0, -40.0)
    elif how == "permute":
        g["flip"] = not g.get("flip", False)
    elif how != "same":
        for k in {"grow": ("gh", "gl"), "grow-low": ("gl",),
                  "grow-high": ("gh",)}[how]:
            if g.get(k, 0) < 3:
                g[k] = g.get(k, 0) + 1
    return g


def points(g, n, space, salt):
    """n well separated points in the space, later ones added singly"""
    q = random.Random(f"{g.get('s' + salt, g['s'])}/{salt}")
    X = lhs_points(q, n, space)
    sp = arr(space)
    w = sp[:, 1] - sp[:, 0]
    for _ in range(g.get("g" + salt, 0)):
        C = sp[:, 0] + w * np.array([[q.random() for _ in sp]
                                     for _ in range(15)])
        far = [np.min(np.sum(((X - x) / w) ** 2, axis=1)) for x in C]
        X = np.vstack((X, C[int(np.argmax(far))]))
    if g.get("flip"):
        X = X[::-1].copy()
    return X


def lhs_points(q, n, space):
    sp = arr(space)
    d = len(sp)
    cols = []
    for _ in range(d):
        p = list(range(n))
        q.shuffle(p)
        cols.append([(k + 0.1 + 0.8 * q.random()) / n for k in p])
    u = np.array(cols).T
    return sp[:, 0] + u * (sp[:, 1] - sp[:, 0])


def response(g, X, space, level):
    sp = arr(space)
    u = (X - sp[:, 0]) / (sp[:, 1] - sp[:, 0])
    q = random.Random(f"{g.get('sf', g['s'])}/f")
    a = np.array([q.uniform(0.3, 1.0) for _ in range(u.shape[1])])
    ph = q.uniform(0, 6)
    y = np.sin(g["freq"] * (u @ a) + ph) + 0.5 * (u @ a) ** 2
    if level:
        y = g["cheap"] * y + 0.3 * np.cos(3 * (u @ a)) - 0.2
    if g.get("noisy"):
        y = y + 0.1 * np.sin(np.arange(len(y)) * 12.9898 + 78.2 * level)
    return (g["off"] + g["scale"] * y).reshape(-1, 1)


def data(m, g):
    """[X, Y] for single-, [[Xh, Xl], [Yh, Yl]] for multi-fidelity models"""
    form = g.get("form")
    if m["kind"] == "GP":
        X = points(g, g["n"], m["space"], "h")
        Y = response(g, X, m["space"], 0)
        return [shaped(X, form), Y.ravel() if form == "flat"
                else shaped(Y, form)]
    Xl = points(g, g["nl"], m["space"], "l")
    Xh = Xl[: g["n"]].copy() if g.get("nest") else \
        points(g, g["n"], m["space"], "h")
    return [[shaped(v, form) for v in (Xh, Xl)],
            [shaped(response(g, Xh, m["space"], 0), form),
             shaped(response(g, Xl, m["space"], 1), form)]]


def query_points(r_seed, n, m):
    q = random.Random(r_seed)
    sp = arr(m["space"])
    u = np.array([[q.random() for _ in range(len(sp))] for _ in range(n)])
    return sp[:, 0] + u * (sp[:, 1] - sp[:, 0])


class _Logged:
    """the function an optimiser is given, with a record of its use"""

    def __init__(self, func, rec):
        self.func, self.rec = func, rec

    def __call__(self, x, *args):
        y = self.func(x, *args)
        xx = np.atleast_2d(np.array(x, float))
        yy = arr(y).ravel().copy()
        for i in range(len(yy)):
            self.rec["X"].append(xx[i].copy())
            self.rec["Y"].append(float(yy[i]))
        return y


class Proxy:
    """user-supplied optimiser that remembers what it evaluated"""

    def __init__(self, inner, log=None):
        self.inner = inner
        self.runs = [] if log is None else log

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        rec = {"X": [], "Y": [], "space": arr(design_space).copy(),
               "done": False}
        self.runs.append(rec)

        h = getattr(ctx(), "opt", {}).get("on_search")
        if h is not None:
            h(getattr(func, "__self__", None))
        f = _Logged(func, rec)
        out = self.inner.run_optimizer(f, num_dim, design_space, *a, **k)
        rec["done"] = True
        return out


class RandomSearch:
    """a minimal optimiser of the user, same contract as PSO and DE"""

    def __init__(self, n):
        self.n = n

    def run_optimizer(self, func, num_dim, design_space, print_info=False,
                      stopping_error=None, args=()):
        sp = arr(design_space)
        X = np.random.uniform(sp[:, 0], sp[:, 1], (self.n, num_dim))
        Y = arr(func(X, *args)).ravel()
        i = int(np.nanargmin(np.where(np.isnan(Y), np.inf, Y)))
        x = X[i].copy()
        return {"best_x": x, "best_y": Y[i]}, Y[i], x


def make_opt(lib, o, log=None):
    if o is None:
        return None
    if o["alg"] == "random":
        inner = RandomSearch(o["pop"] * (o["gen"] + 1))
    else:
        inner = getattr(lib, o["alg"])(num_pop=o["pop"], num_gen=o["gen"])
    return inner if o.get("raw") else Proxy(inner, log)


def make(lib, m, log=None, space=None, opt=0):
    """a new model with the settings m"""
    sp = np.array(m["space"], dtype=float) if space is None else space
    o = make_opt(lib, m["opt"], log) if opt == 0 else opt
    k = {"optimizer": o, "noise_prior": m["noise"]}
    if m["restart"] is not None:
        k["optimizer_restart"] = m["restart"]
    kind = m["kind"]
    if kind == "GP":
        if m.get("regr"):
            k["regr"] = getattr(lib, m["regr"])()
        if m.get("kernel"):
            k["kernel"] = lib.RBF(theta=np.zeros(m["dim"]),
                                  bounds=list(m["kernel"]))
        return lib.GP(design_space=sp, **k)
    if m.get("kernel") and kind != "GP":
        k["kernel_bound"] = list(m["kernel"])
    if m.get("rho_bound"):
        k["rho_bound"] = list(m["rho_bound"])
    if kind == "SK":
        k["rho_optimize"] = m["rho_optimize"]
        k["rho_method"] = m["rho_method"]
        if m.get("rho_opt"):
            k["rho_optimizer"] = make_opt(lib, m["rho_opt"])
        if m.get("own"):
            kw = {"noise_prior": m["noise"], "optimizer_restart": 1,
                  "optimizer": o}
            k["lfGP"] = lib.GP(design_space=sp, **kw)
            k["disc_model"] = lib.GP(design_space=sp, **kw)
    return getattr(lib, kind)(design_space=sp, **k)


def train(c, m, mod, D, t):
    """one training with its own random numbers and search behaviour"""
    seams.set_global_state(seams.seed_state(t["np"]))
    c.opt["prng"] = random.Random(t["np"] ^ 0xABCD)
    c.opt["maxiter"] = t.get("maxiter", 4)
    c.opt["end_p"] = t.get("end_p", 0.0)
    c.opt["end_modes"] = t.get("modes", ["stall"])
    c.rng_mode = {"extreme": 0.0}
    c.groups.clear()
    del c.records[:]
    mod.train(D[0], D[1])


def gen_train(r, m, last=None):
    g = gen_data(r, m)
    if last is not None and chance(r, 0.6):
        g = derive(r, m, last["data"])
    t = {"do": "train", "data": g, "np": r.randrange(2 ** 31),
         "maxiter": pick(r, 1, 2, 4, 4, 8)}
    if chance(r, 0.5):
        t["end_p"] = pick(r, 0.2, 0.5, 0.9)
        t["modes"] = pick(r, ["stall"], ["early", "stall"],
                          ["stall-nan", "stall-inf", "nan", "inf"],
                          ["stall", "stall-nan", "early", "nan", "inf"])
    return t


def gen_fault(r):
    at = pick(r, "minimize", "nll", "linalg", "linalg", "rng", "line",
              "line")
    if at == "line":
        return {"line": pick(r, 3, 10, 30, 60, 100, 200, 400, 900)
                + r.randrange(10)}
    do = {"rng": ["interrupt"], "minimize": ["interrupt", "memory"]}.get(
        at, ["interrupt", "memory", "linalg"])
    f = {"at": at, "n": pick(r, 0, 1, 2, 5, 9, 20, 40, 80, 150),
         "do": pick(r, *do)}
    if at == "linalg" and chance(r, 0.5):
        # counted from the end of the call
        f["late"] = pick(r, 4, 9, r.randrange(24))
        f["do"] = pick(r, "linalg", "linalg", f["do"])
    return f


def last_train(ops):
    return next((o for o in reversed(ops) if o["do"] == "train"), None)


def gen_history(r, m, tier, n=None, q=None):
    ops = []
    for _ in range(pick(r, 0, 1, 1, 2, 3) if n is None else n):
        k = pick(r, "train", "train", "fail", "fail", "predict", "mutate")
        if m["kind"] == "GP" and chance(r, 0.2):
            ops.append({"do": "optimizer", "opt": gen_opt(r)})
        elif k == "train":
            ops.append(gen_train(r, m, last_train(ops)))
            if q is not None and chance(r, 0.5):
                # the same query as later on
                ops.append({"do": "predict", "s": q[0], "n": q[1],
                            "std": chance(r, 0.6)})
        elif k == "fail":
            t = gen_train(r, m, last_train(ops))
            t["fault"] = gen_fault(r)
            ops.append(t)
        elif k == "predict":
            ops.append({"do": "predict", "s": r.randrange(2 ** 31),
                        "n": pick(r, 1, 2, 5), "std": chance(r, 0.6)})
        else:
            ops.append({"do": "mutate", "how": pick(r, "zero", "shift",
                                                    "swap")})
    return ops


def flat(D):
    out = []
    for e in D:
        out.extend(e if isinstance(e, list) else [e])
    return out


def mutate(D, how):
    for a in flat(D):
        if how == "zero":
            a[:] = 0.0
        elif how == "shift":
            a += 1.7
        else:
            a[:] = a[::-1].copy()


class Session:
    """a model driven through a history of trainings"""

    def __init__(self, lib, c, m, log=None):
        self.lib, self.c, self.m = lib, c, m
        self.log = log
        self.mod = make(lib, m, log)
        self.D = None           # arrays handed to the model
        self.clean = None       # private copy of the last good data
        self.t = None
        self.ok = False

    def op(self, o):
        c, m = self.c, self.m
        if o["do"] == "train":
            D = data(m, o["data"])
            keep = snap(D)
            f = o.get("fault")
            self.ok = False
            try:
                if f is None:
                    train(c, m, self.mod, D, o)
                elif "line" in f:
                    with interrupt_at_line(f["line"]):
                        train(c, m, self.mod, D, o)
                else:
                    c.plan([self.late(f, D, o) if "late" in f else dict(f)])
                    train(c, m, self.mod, D, o)
                self.ok = True
                c.probe("trained")
            except INJECTED:
                c.probe("training-aborted")
            except np.linalg.LinAlgError:
                c.probe("training-failed-linalg")
                if f is None:
                    raise
            finally:
                c.plan([])
            self.D, self.clean, self.t = D, keep, o
        elif o["do"] == "predict":
            if self.ok:
                X = query_points(o["s"], o["n"], m)
                self.mod.predict(X, return_std=o["std"])
        elif o["do"] == "mutate":
            if self.D is not None:
                mutate(self.D, o["how"])
                c.probe("caller-changed-arrays")
        elif o["do"] == "optimizer":
            self.m = m = dict(m, opt=o["opt"])
            self.mod.change_optimizer(make_opt(self.lib, o["opt"], self.log))
            c.probe("optimizer-changed")


    def late(self, f, D, o):
        """a failure near the end of the call; a new model tells its length"""
        c = self.c
        hook = c.opt.pop("on_search", None)
        k = c.counts["linalg"]
        try:
            train(c, self.m, make(self.lib, self.m), snap(D), o)
        except np.linalg.LinAlgError:
            pass
        finally:
            if hook is not None:
                c.opt["on_search"] = hook
            c.groups.clear()
        return {"at": "linalg", "do": f["do"],
                "n": max(c.counts["linalg"] - k - 1 - f["late"], 0)}


def close(a, b, tol=1e-9):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    s = max(1e-300, float(np.nanmax(np.abs(np.where(
        np.isfinite(b), b, 0)))) if b.size else 0.0)
    return bool(np.all((np.abs(a - b) <= tol * s) | (a == b)
                       | (np.isnan(a) & np.isnan(b))))


def with_std(answer):
    need(isinstance(answer, (tuple, list)) and len(answer) == 2,
         "prediction-without-uncertainty",
         f"return_std=True returned {type(answer).__name__}")
    return answer


def predictions(mod, m, P):
    mu, sd = with_std(mod.predict(P, return_std=True))
    out = [arr(mu).copy(), arr(sd).copy()]
    if m["kind"] != "GP":
        a = mod.predict_lf(P)
        b = with_std(mod.predict_lf(P, return_std=True))
        out += [arr(a).copy(), arr(b[0]).copy(), arr(b[1]).copy()]
    return out


# --------------------------------------------------------------------------
class C09:
    id = "C09"
    runs = {"quick": 2500, "thorough": 40000}
    rule = ("a model goes through a seeded history of trainings on other "
            "data, trainings aborted at a seam or at a source line, "
            "predictions, clock jumps and changes of the caller's arrays, is "
            "trained, and is compared with a new model given the same data, "
            "random numbers and search behaviour; non-trivial: history not "
            "empty and final training succeeded")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        m = gen_model(r)
        q = r.randrange(2 ** 31), pick(r, 1, 3, 6)
        h = gen_history(r, m, tier, q=q)
        scn = {"model": m, "ops": h,
               "final": gen_train(r, m, last_train(h)),
               "after": [{"do": "mutate", "how": pick(r, "zero", "shift",
                                                      "swap")}
                         for _ in range(pick(r, 0, 1))],
               "q": q[0], "nq": q[1]}
        if chance(r, 0.15):         # no search succeeds at all
            scn["hopeless"] = gen_train(r, m, last_train(h))
            scn["hopeless"].update(bad=pick(r, "nan", "inf", "stall-nan"),
                                   end_p=0.0)
        return scn

    @staticmethod
    def run(scn, c):
        lib = Lib()
        m = scn["model"]
        s = Session(lib, c, m)
        c.nontrivial = bool(scn["ops"])
        for o in scn["ops"]:
            s.op(o)
        if scn.get("hopeless"):
            C09.hopeless(lib, c, s, scn)
        s.op(scn["final"])
        P = query_points(scn["q"], scn["nq"], m)
        a = predictions(s.mod, m, P)
        c.log("pred", *a)
        # predicting is repeatable and does not change the model
        mean = arr(s.mod.predict(P)).copy()
        need(close(mean, a[0], 1e-12), "mean-depends-on-std-request",
             lambda: f"{mean.ravel()[:4]} vs {a[0].ravel()[:4]}")
        for o in scn.get("after", []):
            s.op(o)
        b = predictions(s.mod, m, P)
        need(all(close(x, y, 1e-12) for x, y in zip(a, b)),
             "prediction-changed-by-" + (
                 "caller-arrays" if scn.get("after") else "predicting"),
             lambda: f"{a[0].ravel()[:3]} then {b[0].ravel()[:3]}")
        # a new model with the same data and random numbers
        new = make(lib, s.m)
        train(c, m, new, data(m, scn["final"]["data"]), scn["final"])
        e = predictions(new, m, P)
        if not all(same(x, y) for x, y in zip(a, e)):
            c.probe("not-bit-identical")
        need(all(close(x, y) for x, y in zip(a, e)), "history-dependent",
             lambda: "; ".join(
                 f"{n}: {x.ravel()[:3]} new model {y.ravel()[:3]}"
                 for n, x, y in zip(
                     ("mean", "std", "lf", "lf", "lf std"), a, e)
                 if not close(x, y)))
        if m["kind"] == "GP" and chance(random.Random(scn["q"]), 0.3):
            one = arr(s.mod.predict(P[:1])).ravel()
            need(close(one, a[0][:1].ravel(), 1e-5) or
                 abs(one[0] - a[0][0, 0]) < 1e-5 * float(np.std(
                     s.clean[1]) + abs(np.mean(s.clean[1])) + 1e-300) *
                 (1 + float(np.sum(np.abs(arr(s.mod.gamma))))),
                 "batch-dependent", f"{one} vs {a[0][0]}")


    @staticmethod
    def hopeless(lib, c, s, scn):
        """whatever a training does none of whose searches ends with a
        number, a new model does the same"""
        t = scn["hopeless"]
        P = query_points(scn["q"], scn["nq"], s.m)
        out = []
        for mod in (s.mod, make(lib, s.m)):
            c.opt["all_bad"] = t["bad"]
            try:
                train(c, s.m, mod, data(s.m, t["data"]), t)
                out.append(predictions(mod, s.m, P))
            except Exception as e:
                out.append(type(e).__name__)
            finally:
                c.opt.pop("all_bad")
        a, e = out
        c.probe("no-search-succeeds")
        need(isinstance(a, str) == isinstance(e, str) and (
            isinstance(a, str) or all(close(x, y) for x, y in zip(a, e))),
            "history-dependent", lambda: "without a successful search: "
            f"{str(a)[:150]}, new model {str(e)[:150]}")


# -- reference predictor ------------------------------------------------------
def basis(kind, X):
    n, d = X.shape
    cols = [np.ones(n)]
    if kind in ("Linear", "Quadratic"):
        cols += [X[:, i] for i in range(d)]
    if kind == "Quadratic":
        cols += [X[:, i] * X[:, j] for i in range(d) for j in range(i, d)]
    return np.array(cols).T


def corr(A, B, p):
    d = (A[:, None, :] - B[None, :, :]) ** 2
    return np.exp(-np.sum(d * p, axis=2))


class Krig:
    """universal kriging, written from the textbook; all in scaled units"""

    def __init__(self, X, y, p, nugget, F):
        n = len(X)
        self.X, self.p, self.F = X, p, F
        self.R = corr(X, X, p) + np.eye(n) * (1e-10 + nugget)
        self.cond = float(np.linalg.cond(self.R))
        Ri = self.Ri = np.linalg.inv(self.R)
        A = F.T @ Ri @ F
        self.condA = float(np.linalg.cond(A))
        self.Ai = np.linalg.inv(A)
        self.beta = self.Ai @ (F.T @ Ri @ y)
        res = y - F @ self.beta
        self.g = Ri @ res
        self.s2 = float((res.T @ self.g).item()) / n
        self.sg = float(np.sum(np.abs(self.g)))
        self.n = n
        self.delta = 3e-10 + 4e-15 * float(np.sum(p)) * 10

    def predict(self, Z, fz):
        k = corr(self.X, Z, self.p)
        mean = fz @ self.beta + k.T @ self.g
        w = self.Ri @ k
        u = fz.T - self.F.T @ w
        v = self.Ai @ u
        q = 1 - np.sum(k * w, axis=0) + np.sum(u * v, axis=0)
        var = self.s2 * q
        W = (1 + np.sum(np.abs(w), axis=0)
             + np.sum(np.abs(self.Ri @ self.F @ v), axis=0))
        d = self.delta + 1e-16 * self.cond
        em = 1e-9 + 20 * d * W * (1 + self.sg)
        ev = 1e-9 * abs(self.s2) + 20 * d * W ** 2 * (
            abs(self.s2)) + 20 * d * self.sg ** 2 / self.n * np.abs(q)
        return (mean.reshape(-1, 1), np.maximum(var, 0).reshape(-1, 1),
                em.reshape(-1, 1), ev.reshape(-1, 1))


def unit(X, space):
    sp = arr(space)
    return (X - sp[:, 0]) / (sp[:, 1] - sp[:, 0])


def ref_gp(gp, X, Y, space, regr, prior):
    """mean(Z), var(Z) and tolerances of a single-fidelity model"""
    U = unit(X, space)
    my, sy = float(np.mean(Y)), float(np.std(Y))
    p = arr(gp.kernel.param).ravel()
    noise = float(np.ravel(gp.noise)[0]) if prior is None else prior
    kr = Krig(U, (Y - my) / sy, p, (noise / sy) ** 2, basis(regr, U))

    def f(Z):
        z = unit(Z, space)
        m, v, em, ev = kr.predict(z, basis(regr, z))
        return (m * sy + my, v * sy ** 2 + noise ** 2, em * sy,
                ev * sy ** 2)
    f.kr, f.noise, f.sy = kr, noise, sy
    return f


def compare(c, what, got, ref, var, em, ev, scale):
    mu, sd = arr(got[0]), arr(got[1])
    need(mu.shape == ref.shape, "prediction-shape", f"{what} {mu.shape}")
    need(bool(np.all(sd >= 0)), "std-negative-or-nan",
         lambda: f"{what}: {sd.ravel()[:4]}")
    need(bool(np.all(np.isfinite(mu))), "mean-not-finite",
         lambda: f"{what}: {mu.ravel()[:4]}")
    good = (em < 1e-2 * scale).ravel()
    if not np.all(good):
        c.probe("ill-conditioned-skip")
    if not np.any(good):
        return False
    bad = good & (np.abs(mu - ref) > em).ravel()
    need(not np.any(bad), "mean-is-not-the-posterior",
         lambda: f"{what}: {mu[bad].ravel()[:3]} reference "
         f"{ref[bad].ravel()[:3]} tolerance {em[bad].ravel()[:3]}")
    v = sd.reshape(var.shape) ** 2
    okv = good & (ev < 0.05 * np.maximum(var, scale ** 2 * 1e-4)).ravel()
    bad = okv & (np.abs(v - var) > ev + 1e-7 * var).ravel()
    need(not np.any(bad), "std-is-not-the-posterior",
         lambda: f"{what}: variance {v[bad].ravel()[:3]} reference "
         f"{var[bad].ravel()[:3]} tolerance {ev[bad].ravel()[:3]}")
    return True


class C10:
    id = "C10"
    runs = {"quick": 3000, "thorough": 40000}
    rule = ("after a seeded history of (partly aborted) trainings with "
            "searches stopped at arbitrary points, mean and standard "
            "deviation are compared with an independently written kriging "
            "predictor; non-trivial: at least one point where rounding "
            "allows a comparison")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        m = gen_model(r)
        h = gen_history(r, m, tier)
        return {"model": m, "ops": h,
                "final": gen_train(r, m, last_train(h)), "q": r.randrange(2 ** 31),
                "nq": pick(r, 1, 3, 6) if chance(r, 0.93) else
                pick(r, 70, 130, 300),
                "out": pick(r, 0.0, 0.0, 0.0, 0.1, 1.0)}

    @staticmethod
    def run(scn, c):
        lib = Lib()
        m = scn["model"]
        s = Session(lib, c, m)
        for o in scn["ops"]:
            s.op(o)
        s.op(scn["final"])
        P = query_points(scn["q"], scn["nq"], m)
        if scn.get("out"):              # also outside the design space
            sp = arr(m["space"])
            mid = sp.mean(axis=1)
            P = mid + (P - mid) * (1 + 2 * scn["out"])
        D = s.clean
        if m["kind"] == "GP":
            D = [D[0], D[1].reshape(-1, 1)]
            P = np.vstack((P, D[0][:2]))
        else:
            P = np.vstack((P, D[0][0][:1], D[0][1][:1]))
        a = predictions(s.mod, m, P)
        c.log("pred", *a)
        c.nontrivial = bool(getattr(C10, m["kind"])(c, m, s.mod, D, P, a))
        C10.interpolates(c, m, s.mod, D)

    @staticmethod
    def GP(c, m, mod, D, P, a):
        f = ref_gp(mod, D[0], D[1], m["space"], m.get("regr"), m["noise"])
        return compare(c, "gp", a, *f(P), f.sy)

    @staticmethod
    def HK(c, m, mod, D, P, a):
        (Xh, Xl), (Yh, Yl) = D
        f = ref_gp(mod.lfGP, Xl, Yl, m["space"], None, m["noise"])
        ok = compare(c, "hk-lf", a[3:5], *f(P), f.sy)
        compare(c, "hk-lf", (a[2], a[4]), *f(P), f.sy)
        my, sy = float(np.mean(Yh)), float(np.std(Yh))
        U, Z = unit(Xh, m["space"]), unit(P, m["space"])
        tr = (arr(mod.predict_lf(Xh)) - my) / sy
        tz = (a[2] - my) / sy
        noise = float(np.ravel(mod.noise)[0]) if m["noise"] is None \
            else m["noise"]
        kr = Krig(U, (Yh - my) / sy, arr(mod.kernel.param).ravel(),
                  (noise / sy) ** 2, tr)
        mu, v, em, ev = kr.predict(Z, tz)
        return compare(c, "hk", a, mu * sy + my, v * sy ** 2 + noise ** 2,
                       em * sy, ev * sy ** 2, sy) and ok

    @staticmethod
    def SK(c, m, mod, D, P, a):
        (Xh, Xl), (Yh, Yl) = D
        f = ref_gp(mod.lfGP, Xl, Yl, m["space"], None, m["noise"])
        lf = f(P)
        ok = compare(c, "sk-lf", a[3:5], *lf, f.sy)
        rho = float(np.ravel(mod.rho)[0])
        disc = Yh - rho * arr(mod.predict_lf(Xh))
        if float(np.std(disc)) < 1e-9 * float(np.std(Yh)):
            c.probe("degenerate-discrepancy")
            return False
        g = ref_gp(mod.disc_model, Xh, disc, m["space"], None, m["noise"])
        di = g(P)
        mu = rho * lf[0] + di[0]
        var = rho ** 2 * lf[1] + di[1]
        em = abs(rho) * lf[2] + di[2]
        ev = rho ** 2 * lf[3] + di[3]
        return compare(c, "sk", a, mu, var, em, ev,
                       min(g.sy, abs(rho) * f.sy + g.sy)) and ok

    @staticmethod
    def CK(c, m, mod, D, P, a):
        (Xh, Xl), (Yh, Yl) = D
        my, sy = float(np.mean(Yh)), float(np.std(Yh))
        U, Ul, Z = (unit(q, m["space"]) for q in (Xh, Xl, P))
        yh, yl = (Yh - my) / sy, (Yl - my) / sy
        if m["noise"] is None:
            nl = float(np.ravel(mod.lfGP.noise)[0])
            nh = float(np.ravel(mod.noise)[0])
        else:
            nl = nh = m["noise"] / sy
        pl = arr(mod.lfGP.kernel.param).ravel()
        pd = arr(mod.kernel.param).ravel()
        rho = float(np.ravel(mod.rho)[0])
        one = np.ones((len(Ul), 1))
        kl = Krig(Ul, yl, pl, nl ** 2, one)
        mu, v, em, ev = kl.predict(Z, np.ones((len(Z), 1)))
        sl = max(float(np.std(Yl)), 1e-300)
        ok = compare(c, "ck-lf", a[3:5], mu * sy + my,
                     (v + nl ** 2) * sy ** 2, em * sy, ev * sy ** 2, sl)
        # discrepancy process
        plh = arr(mod.predict_lf(Xh))
        yd = yh - rho * (plh - my) / sy
        kd = Krig(U, yd, pd, nh ** 2, np.ones((len(U), 1)))
        s2l, s2d = kl.s2, kd.s2
        C = np.block([
            [s2l * kl.R, rho * s2l * corr(Ul, U, pl)],
            [rho * s2l * corr(U, Ul, pl),
             rho ** 2 * s2l * (corr(U, U, pl) + 1e-10 * np.eye(len(U)))
             + s2d * kd.R]])
        C += 1e-10 * np.eye(len(C))
        cond = float(np.linalg.cond(C))
        if cond > 1e9:
            c.probe("ill-conditioned-skip")
            return ok
        Ci = np.linalg.inv(C)
        y = np.vstack((yl, yh))
        o = np.ones((len(C), 1))
        mu0 = float((o.T @ Ci @ y).item() / (o.T @ Ci @ o).item())
        k = np.vstack((rho * s2l * corr(Ul, Z, pl),
                       rho ** 2 * s2l * corr(U, Z, pl)
                       + s2d * corr(U, Z, pd)))
        g = Ci @ (y - mu0)
        w = Ci @ k
        mean = mu0 + k.T @ g
        q = rho ** 2 * s2l + s2d
        var = q - np.sum(k * w, axis=0).reshape(-1, 1)
        cm = float(np.max(np.abs(C)))
        # relative uncertainty of the two process variances and of rounding
        rel = 20 * (kl.delta + 1e-16 * kl.cond) * (1 + kl.sg ** 2 / kl.n /
                                                   max(s2l, 1e-300)) \
            + 20 * (kd.delta + 1e-16 * kd.cond) * (1 + kd.sg ** 2 / kd.n /
                                                   max(s2d, 1e-300))
        d = (3e-10 + rel) * cm + 1e-16 * cond * cm
        W = (1 + np.sum(np.abs(w), axis=0)).reshape(-1, 1)
        em = 1e-9 + 20 * d * W * (1 + np.sum(np.abs(g)))
        ev = 1e-9 * q + 20 * d * W ** 2
        return compare(c, "ck", a, mean * sy + my,
                       np.maximum(var, 0) * sy ** 2 + (nh * sy) ** 2,
                       em * sy, ev * sy ** 2, sy) and ok

    @staticmethod
    def interpolates(c, m, mod, D):
        """noise-free, well-conditioned: training responses come back"""
        if m["noise"] != 0.0:
            return
        if m["kind"] == "GP":
            X, Y = D
            Ks = [(unit(X, m["space"]), mod.kernel, Y)]
            got, want = mod.predict(X), Y
        else:
            X, Y = D[0][0], D[1][0]
            Ks = [(unit(X, m["space"]), mod.kernel, Y)]
            if m["kind"] in ("CK", "SK"):
                Ks.append((unit(D[0][1], m["space"]), mod.lfGP.kernel,
                           D[1][1]))
            if m["kind"] == "SK":
                Ks[0] = (Ks[0][0], mod.disc_model.kernel, Y)
            got, want = mod.predict(X), Y
        worst = 0.0
        for U, k, _ in Ks:
            R = corr(U, U, arr(k.param).ravel()) + 1e-10 * np.eye(len(U))
            worst = max(worst, float(np.linalg.cond(R)))
        if m["kind"] == "CK":
            if not hasattr(mod, "C"):
                return
            worst = max(worst, float(np.linalg.cond(arr(mod.C))))
        if worst > 1e5:
            return
        c.probe("interpolation-checked")
        s = float(np.std(Y)) + (float(np.std(D[1][1])) * abs(float(
            np.ravel(mod.rho)[0])) if m["kind"] in ("SK", "CK") else 0.0)
        e = float(np.max(np.abs(arr(got) - want)))
        need(e <= 1e-3 * s, "does-not-interpolate",
             f"error {e} at training points, scale {s}, cond {worst:.1e}")


# --------------------------------------------------------------------------
class C11:
    id = "C11"
    runs = {"quick": 3000, "thorough": 45000}
    rule = ("trainings (after a history of others) whose searches end early, "
            "stalled, or with NaN or infinite values from random or extreme "
            "starting points; the kept hyperparameters are compared with the "
            "record of all searches; non-trivial: at least two results to "
            "choose from")
    real = REAL
    stub = STUB

    @staticmethod
    def gen(r, tier, i):
        m = gen_model(r)
        m["restart"] = pick(r, None, 0, 1, 2, 3, 5, 8)
        if chance(r, 0.5):
            m["opt"] = None
        h = gen_history(r, m, tier, pick(r, 0, 0, 1))
        return {"model": m, "ops": h,
                "final": gen_train(r, m, last_train(h)),
                "extreme": pick(r, 0.0, 0.0, 0.3)}

    @staticmethod
    def run(scn, c):
        lib = Lib()
        m = scn["model"]
        log = []
        s = Session(lib, c, m, log)
        for o in scn["ops"]:
            s.op(o)
        del log[:]
        s.op(scn["final"])
        mod = s.mod
        n = C11.restarts(m)
        theta = m.get("kernel") or {"GP": [-2, 3], "HK": [-2, 3],
                                    "CK": [-2, 3]}.get(m["kind"])
        lf_theta = [-2, 3]
        d = m["dim"]
        kind = m["kind"]
        nz = [[1e-5, 10.0]] if m["noise"] is None else []
        if kind == "GP":
            parts = [(mod, [theta] * d + nz, n, "")]
        elif kind == "HK":
            parts = [(mod.lfGP, [lf_theta] * d + nz, n, "lf"),
                     (mod, [theta] * d + nz, n, "hf")]
        elif kind == "SK":
            parts = [(mod.lfGP, [lf_theta] * d + nz, n, "lf"),
                     (mod.disc_model, [lf_theta] * d + nz, n, "disc")]
        else:
            rb = m.get("rho_bound") or [1e-2, 1e2]
            parts = [(mod.lfGP, [lf_theta] * d + nz, n, "lf"),
                     (mod, [rb] + nz + [theta] * d, n, "hf")]
        rho_recs = []
        nll = C11.likelihoods(m, mod, s.clean)
        if kind == "SK":
            rho_recs = C11.rho(c, m, mod, scn, s.clean)
        if s.m["opt"] is None:
            C11.builtin(c, parts, rho_recs, m, nll)
        else:
            C11.population(c, parts, log, nll)
        C11.used(m, mod, s.clean)

    @staticmethod
    def likelihoods(m, mod, D):
        """per part: negative log-likelihood from the textbook, and its
        tolerance, as a function of a point in search coordinates"""
        prior = m["noise"]

        def value(U, y, p, nug, F):
            if not np.all(np.isfinite(p)):
                return None
            try:
                kr = Krig(U, y, p, nug, F)
            except np.linalg.LinAlgError:
                return None
            sign, logdet = np.linalg.slogdet(kr.R)
            d = kr.delta + 1e-16 * kr.cond
            tol = 20 * d * float(np.sum(np.abs(kr.Ri)))
            if sign <= 0 or not kr.s2 > 0:
                return None
            q = 20 * d * kr.sg ** 2
            if prior == 0.0:
                v = 0.5 * kr.n * np.log(kr.s2) + 0.5 * logdet
                tol += 0.5 * q / kr.s2
            else:
                v = 0.5 * kr.n * kr.s2 + 0.5 * logdet
                tol += q
            return v, tol + 1e-6 * (1 + abs(v))

        def gp(X, Y, regr, sy=None, my=None):
            U = unit(X, m["space"])
            my = float(np.mean(Y)) if my is None else my
            sy = float(np.std(Y)) if sy is None else sy
            return gp_like(U, (Y - my) / sy, basis(regr, U), sy)

        def gp_like(U, y, F, sy):
            def f(k):
                if prior is None:
                    return value(U, y, 10 ** k[:-1], k[-1] ** 2, F)
                return value(U, y, 10 ** k, (prior / sy) ** 2, F)
            return f
        if m["kind"] == "GP":
            return [gp(D[0], D[1], m.get("regr"))]
        (Xh, Xl), (Yh, Yl) = D
        my, sy = float(np.mean(Yh)), float(np.std(Yh))
        Uh = unit(Xh, m["space"])
        plh = arr(mod.predict_lf(Xh)).reshape(-1, 1)
        if m["kind"] == "SK":
            disc = Yh - float(np.ravel(mod.rho)[0]) * plh
            if float(np.std(disc)) < 1e-9 * sy:
                return [gp(Xl, Yl, None), lambda k: None]
            return [gp(Xl, Yl, None), gp(Xh, disc, None)]
        if m["kind"] == "HK":
            return [gp(Xl, Yl, None),
                    gp_like(Uh, (Yh - my) / sy, (plh - my) / sy, sy)]

        def ck(k):
            y = (Yh - my) / sy - k[0] * (plh - my) / sy
            one = np.ones((len(Uh), 1))
            if prior is None:
                return value(Uh, y, 10 ** k[2:], k[1] ** 2, one)
            return value(Uh, y, 10 ** k[1:], (prior / sy) ** 2, one)
        return [gp(Xl, Yl, None, sy, my), ck]

    @staticmethod
    def is_likelihood(c, where, f, x, fun):
        """an unmodified value of a search is the likelihood"""
        x = arr(x).ravel()
        if not np.isfinite(fun):
            return
        ref = f(x)
        if ref is None or ref[1] > 0.05 * (1 + abs(ref[0])):
            c.probe("likelihood-ill-conditioned")
            return
        c.probe("likelihood-compared")
        need(abs(fun - ref[0]) <= ref[1], "not-the-likelihood",
             lambda: f"{where}: {fun} at {x}, reference {ref}")

    @staticmethod
    def used(m, mod, D):
        """noise and scale factor are those of the kept hyperparameters"""
        def eq(a, b, what):
            a, b = float(np.ravel(a)[0]), float(np.ravel(b)[0])
            need(abs(a - b) <= 1e-9 * abs(b), "best-not-used",
                 lambda: f"{what} {a}, kept {b}")
        none = m["noise"] is None
        kind = m["kind"]
        if kind == "CK":
            eq(mod.rho, arr(mod.opt_param).ravel()[0], "rho")
            if none:
                eq(mod.noise, arr(mod.opt_param).ravel()[1], "noise")
                eq(mod.lfGP.noise, arr(mod.lfGP.opt_param).ravel()[-1],
                   "low-fidelity noise")
        elif none:
            lf = mod if kind == "GP" else mod.lfGP
            Y = D[1] if kind == "GP" else D[1][1]
            eq(lf.noise, arr(lf.opt_param).ravel()[-1] * np.std(Y), "noise")
            if kind == "HK":
                eq(mod.noise, arr(mod.opt_param).ravel()[-1]
                   * np.std(D[1][0]), "noise")

    @staticmethod
    def restarts(m):
        if m["kind"] == "SK" and m.get("own"):
            return 2
        if m["restart"] is None:
            return {"GP": 6, "HK": 6, "SK": 1, "CK": 1}[m["kind"]]
        return m["restart"] + 1

    @staticmethod
    def kept(part):
        """reported hyperparameters in search coordinates"""
        mod, bounds, _, where = part
        return arr(mod.opt_param).ravel()

    @staticmethod
    def rho(c, m, mod, scn, D):
        rho = float(np.ravel(mod.rho)[0])
        if not m["rho_optimize"]:
            need(rho == 1.0, "rho-changed", f"{rho}")
            return []
        lo, hi = m.get("rho_bound") or [1e-2, 1e1]
        need(lo <= rho <= hi, "outside-bounds", f"rho {rho} [{lo},{hi}]")

        def error(r, fun):
            w = float(np.sum((r * lf - y) ** 2))
            t = 1e-6 * float(np.sum((np.abs(r * lf) + np.abs(y)) ** 2))
            need(not np.isfinite(fun) or abs(fun - w) <= t, "not-the-error",
                 lambda: f"{fun} at rho {r}, squared error {w}")
        lf = arr(mod.predict_lf(D[0][0])).ravel()
        y = arr(D[1][0]).ravel()
        if m.get("rho_opt"):
            if m["rho_opt"].get("raw"):
                return []
            x = mod.rho_optimizer.runs[-1]
            need(x["done"] and x["space"].shape == (1, 2) and
                 np.allclose(x["space"], [[lo, hi]], rtol=1e-12, atol=0),
                 "wrong-bounds", lambda: f"rho: {x['space'].tolist()}")
            Y = arr(x["Y"]).ravel()
            Y = np.where(np.isnan(Y), np.inf, Y)
            b = float(np.min(Y))
            if np.isfinite(b):
                need(any(rho == float(np.ravel(x["X"][i])[0])
                         for i in range(len(Y)) if Y[i] == b),
                     "rho-not-from-search", f"{rho}, best value {b}")
            if m["rho_method"] == "error":
                for q, v in zip(x["X"], x["Y"]):
                    error(float(np.ravel(q)[0]), float(np.ravel(v)[0]))
            return []
        rec = [x for x in c.records if x["bounds"] is not None and
               x["bounds"].shape[0] == 1 and
               np.allclose(x["bounds"], [[lo, hi]], rtol=1e-12, atol=0)
               and (x["self"] is mod or x["self"] is None)]
        need(len(rec) >= 1, "search-missing", "no search for rho")
        need(any(rho == float(x["x"][0]) for x in rec), "rho-not-from-search",
             f"{rho}")
        if m["rho_method"] == "error":
            for x in rec:
                error(float(x["x"][0]), x["fun"])
        return rec

    @staticmethod
    def builtin(c, parts, rho_recs, m, nll):
        recs = [x for x in c.records if x["kind"] == "minimize"
                and not any(x is y for y in rho_recs)]
        nested = m["kind"] == "SK" and m["rho_optimize"] and \
            m["rho_method"] == "bumpiness"
        groups = []
        if all(x["self"] is not None for x in recs):
            for mod, _, n, where in parts:
                g = [x for x in recs if x["self"] is mod]
                if nested and where == "disc":
                    need(len(g) % n == 0 and len(g) >= n, "search-count",
                         f"{where}: {len(g)} searches, {n} per training")
                    g = g[-n:]
                groups.append(g)
        elif not nested:
            k = 0
            for _, _, n, where in parts:
                groups.append(recs[k:k + n])
                k += n
            groups[-1] += recs[k:]
        else:
            c.nontrivial = False
            return
        c.nontrivial = any(len(g) > 1 for g in groups)
        for part, g, ll in zip(parts, groups, nll):
            mod, bounds, n, where = part
            need(len(g) == n, "search-count",
                 f"{where}: {len(g)} searches, expected {n}")
            for x in g:
                C11.is_likelihood(c, where, ll, x["x"], x["fun"])
            B = arr(bounds)
            for x in g:
                need(x["bounds"] is not None, "search-unbounded", where)
                need(x["bounds"].shape == B.shape and
                     np.allclose(x["bounds"], B, rtol=1e-12, atol=1e-15),
                     "wrong-bounds", f"{where}: {x['bounds'].tolist()} "
                     f"expected {B.tolist()}")
                s = x["x0"].ravel()
                need(s.size == len(B) and np.all(s >= B[:, 0]) and
                     np.all(s <= B[:, 1]), "start-outside-bounds",
                     f"{where}: {s}")
            fun = np.array([x["fun"] for x in g])
            fin = np.where(np.isnan(fun), np.inf, fun)
            best = float(np.min(fin))
            if np.sum(fin < np.inf) < len(fin):
                c.probe("non-finite-search")
            xs = [g[i]["x"].ravel() for i in range(len(g)) if fin[i] == best]
            C11.is_one_of(part, xs, best, fun)

    @staticmethod
    def is_one_of(part, xs, best, fun):
        mod, bounds, n, where = part
        B = arr(bounds)
        k = C11.kept(part)
        need(k.size == len(B), "hyperparameter-count", f"{where} {k}")
        need(np.all(k >= B[:, 0]) and np.all(k <= B[:, 1]),
             "outside-bounds", f"{where}: {k} bounds {B.tolist()}")
        need(any(np.allclose(k, x, rtol=1e-12, atol=0) for x in xs),
             "not-the-best-search", lambda: f"{where}: kept {k}, best value "
             f"{best} at {xs[0]}, values {fun}")
        # and the model really uses them
        th = k
        if len(B) > 0 and B.shape[0] != arr(mod.kernel.param).size:
            p = arr(mod.kernel.param).size
            th = k[-p:] if where == "hf" and hasattr(mod, "rho") else k[:p]
        need(np.allclose(np.log10(arr(mod.kernel.param).ravel()), th,
                         rtol=1e-9, atol=1e-9), "best-not-used",
             lambda: f"{where}: kernel {np.log10(arr(mod.kernel.param))} "
             f"search {th}")

    @staticmethod
    def population(c, parts, log, nll):
        runs = [x for x in log if x["done"]]
        need(len(runs) >= len(parts), "search-missing", f"{len(runs)}")
        c.nontrivial = True
        # the last completed run of each part, in training order
        sel = [runs[0], runs[-1]] if len(parts) == 2 else [runs[-1]]
        for part, x, ll in zip(parts, sel, nll):
            for j in range(0, len(x["Y"]), 1 + len(x["Y"]) // 6):
                C11.is_likelihood(c, part[3], ll, x["X"][j], x["Y"][j])
            mod, bounds, n, where = part
            B = arr(bounds)
            need(x["space"].shape == B.shape and
                 np.allclose(x["space"], B, rtol=1e-12, atol=1e-15),
                 "wrong-bounds", f"{where}: {x['space'].tolist()}")
            X = np.array(x["X"])
            need(np.all(X >= B[:, 0]) and np.all(X <= B[:, 1]),
                 "outside-bounds", where)
            Y = np.array(x["Y"])
            fin = np.where(np.isnan(Y), np.inf, Y)
            best = float(np.min(fin))
            if not np.isfinite(best):
                continue
            C11.is_one_of(part, [X[i] for i in range(len(Y))
                                 if fin[i] == best], best, Y)


# --------------------------------------------------------------------------
class C29:
    id = "C29"
    runs = {"quick": 2500, "thorough": 30000}
    rule = ("histories of trainings, some of which fail, on a simulated "
            "clock: every hyperparameter search takes a simulated time from "
            "microseconds to days, while the wall clock is also set forward "
            "and back; the reported training times are compared with the "
            "time that really passed; non-trivial: the wall clock was set "
            "during a training")
    real = REAL
    stub = STUB + ["wall and monotonic clocks (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        m = gen_model(r)
        ops = gen_history(r, m, tier, pick(r, 0, 1, 2))
        ops.append(gen_train(r, m, last_train(ops)))
        return {"model": m, "ops": ops, "clock": "manual",
                # how much of the time this process (or its threads) worked
                "cpu": pick(r, 1.0, 0.0, 0.2, 0.9, 3.7),
                "took": [pick(r, 1e-3, 0.5, 0.02, 7.0, 300.0, 9e4)
                         * (1 + r.random())
                         for _ in range(pick(r, 1, 3, 7))],
                "steps": [pick(r, 0.0, 0.0, 3600.0, -3600.0, -1.5, 2e7,
                               -4e8) for _ in range(pick(r, 1, 4, 6))]}

    @staticmethod
    def run(scn, c):
        lib = Lib()
        m = scn["model"]
        s = Session(lib, c, m)
        c.cpu_share = scn.get("cpu", 1.0)
        spent = []
        k = [0]

        def on_search(owner):
            d = scn["took"][k[0] % len(scn["took"])]
            w = scn["steps"][k[0] % len(scn["steps"])]
            k[0] += 1
            spent.append((owner, d, w))
            c.advance(d, w)
        c.opt["on_search"] = on_search
        for o in scn["ops"]:
            del spent[:]
            s.op(o)
            c.advance(*scn_gap(scn, k))
            if o["do"] == "train" and s.ok:
                C29.check(c, m, s.mod, spent)

    @staticmethod
    def check(c, m, mod, spent):
        mod_lf = getattr(mod, "lfGP", None)
        total = sum(x[1] for x in spent)
        tol = 1e-3 * min(x[1] for x in spent) + 1e-9 * total + 1e-5
        if any(x[2] for x in spent):
            c.nontrivial = True

        def eq(got, want, what):
            got = float(got)
            need(abs(got - want) <= tol, "not-the-elapsed-time",
                 lambda: f"{m['kind']} {what}: reported {got}, passed {want}")
        if m["kind"] == "GP":
            eq(mod.training_time, total, "training time")
            return
        lf, hf = float(mod.lf_training_time), float(mod.hf_training_time)
        eq(lf + hf, total, "training time of both levels")
        if all(x[0] is not None for x in spent):
            low = sum(x[1] for x in spent if x[0] is mod_lf)
            eq(lf, low, "low-fidelity training time")
            eq(hf, total - low, "high-fidelity training time")


def scn_gap(scn, k):
    """between two calls"""
    return scn["took"][-1], scn["steps"][(k[0] + 1) % len(scn["steps"])]


PROPS = [C09, C10, C11, C29]
