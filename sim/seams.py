"""Seams: every nondeterministic or failing thing mfpml touches.

Installed once per worker before mfpml is first imported.  All wrappers look
the current context up at call time, so names bound by `from x import y`
inside mfpml stay under control.
"""
import random as _pyrandom
import sys
import time as _time
import timeit
import warnings

import numpy as np
import numpy.random as npr
import scipy.linalg
import scipy.optimize

from core import OUTPUT, SimInterrupt, SimMemory, ctx

real = {}
_installed = False
REAL_PERF = _time.perf_counter


def _raise_fault(c, f, where):
    do = f["do"]
    c.groups.clear()
    if do == "interrupt":
        c.fire(f"interrupt@{where}")
        raise SimInterrupt("injected")
    if do == "memory":
        c.fire(f"alloc-failure@{where}")
        raise SimMemory("injected")
    if do == "linalg":
        c.fire(f"linalg-error@{where}")
        raise np.linalg.LinAlgError("injected")


# -- random numbers ---------------------------------------------------------
def get_global_state():
    return real["get_state"](legacy=False)


def set_global_state(s):
    real["set_state"](s)


def seed_state(n):
    return real["RandomState"](n).get_state(legacy=False)


def _extreme(c, a, lo, hi):
    p = c.rng_mode.get("extreme", 0.0)
    if not p:
        return a
    top = np.nextafter(hi, lo) if np.isscalar(hi) else np.nextafter(hi, lo)
    if np.isscalar(a) or getattr(a, "ndim", 1) == 0:
        if c.prng.random() < p:
            c.fired["rng-extreme-draw"] += 1
            return float(lo if c.prng.random() < 0.5 else top)
        return a
    lo_a = np.broadcast_to(lo, a.shape)
    top_a = np.broadcast_to(top, a.shape)
    flat = a.ravel()
    for i in range(flat.size):
        if c.prng.random() < p:
            c.fired["rng-extreme-draw"] += 1
            flat[i] = (lo_a if c.prng.random() < 0.5 else top_a).flat[i]
    return flat.reshape(a.shape)


def _wrap_rng(name, post=None):
    orig = getattr(npr, name)
    real[name] = orig

    def wrapper(*a, **k):
        c = ctx()
        if c is None:
            return orig(*a, **k)
        c.point("rng")
        watch = c.opt.get("on_draw")
        before = real["get_state"](legacy=False) if watch else None
        if name == "seed" and not any(v is not None
                                      for v in (*a, *k.values())):
            c.probe("unseeded-stream")
            a, k = (c.entropy.getrandbits(32),), {}
        out = orig(*a, **k)
        if watch:
            watch(name, before)
        if post is not None:
            out = post(c, out, a, k)
        return out
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(npr, name, wrapper)


def _post_unit(c, out, a, k):
    return _extreme(c, out, 0.0, 1.0)


def _post_uniform(c, out, a, k):
    lo = k.get("low", a[0] if len(a) > 0 else 0.0)
    hi = k.get("high", a[1] if len(a) > 1 else 1.0)
    return _extreme(c, out, np.asarray(lo, float)[()],
                    np.asarray(hi, float)[()])


def _install_rng():
    real["get_state"] = npr.get_state
    real["set_state"] = npr.set_state
    real["RandomState"] = npr.RandomState
    real["default_rng"] = npr.default_rng
    for n in ("random", "rand", "random_sample", "ranf", "sample"):
        if hasattr(npr, n):
            _wrap_rng(n, _post_unit)
    _wrap_rng("uniform", _post_uniform)
    for n in ("choice", "randint", "normal", "randn", "standard_normal",
              "permutation", "shuffle", "seed", "get_state", "set_state",
              "random_integers", "beta", "exponential", "multivariate_normal",
              "bytes"):
        if hasattr(npr, n):
            _wrap_rng(n)

    RS = real["RandomState"]

    class _Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, RS)

        def __subclasscheck__(cls, o):
            return issubclass(o, RS)

        def __call__(cls, seed=None):
            c = ctx()
            if c is not None:
                c.point("rng")
                if seed is None:
                    c.probe("unseeded-RandomState")
                    seed = c.entropy.getrandbits(32)
                elif "on_make" in c.opt:
                    c.opt["on_make"](seed)
            return RS(seed)

    class RandomState(metaclass=_Meta):
        pass
    npr.RandomState = RandomState

    def default_rng(seed=None):
        c = ctx()
        if c is not None:
            c.point("rng")
            if seed is None:
                c.probe("unseeded-default_rng")
                seed = c.entropy.getrandbits(64)
            elif "on_make" in c.opt:
                c.opt["on_make"](seed)
        return real["default_rng"](seed)
    npr.default_rng = default_rng

    SS = npr.SeedSequence
    real["SeedSequence"] = SS


# -- clock ------------------------------------------------------------------
def _install_clock():
    def mk(name, scale):
        orig = getattr(_time, name)
        real["time." + name] = orig

        def f():
            c = ctx()
            if c is None:
                return orig()
            c.counts["clock"] += 1
            t = (c.now() if name.startswith("time") else c.cpu_now()
                 if name.startswith(("process_", "thread_"))
                 else c.mono_now())
            return int(t * 1e9) if scale else t
        setattr(_time, name, f)
    for n in ("time", "perf_counter", "monotonic", "process_time",
              "thread_time"):
        mk(n, False)
        mk(n + "_ns", True)
    timeit.default_timer = _time.perf_counter
    real_sleep = _time.sleep

    def sleep(s):
        c = ctx()
        if c is None:
            return real_sleep(s)
        c.advance(s)
        c.point("sleep")
    _time.sleep = sleep


# -- locks and process identity ------------------------------------------------
class SimLock:
    """A lock of the library: waiting hands over to another session."""

    def __init__(self, lock):
        self._lock = lock

    def acquire(self, blocking=True, timeout=-1):
        c = ctx()
        s = c.sched if c is not None else None
        if s is None or s.cur is None:
            return self._lock.acquire(blocking, timeout)
        tries = 0
        while not self._lock.acquire(False):
            tries += 1
            if not blocking or (timeout >= 0 and tries > 50):
                return False
            if not s.blocked():
                return self._lock.acquire(True, timeout)    # a deadlock
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")


def _install_process():
    import os
    import threading
    import _thread
    for mod, name in ((threading, "Lock"), (threading, "RLock"),
                      (_thread, "allocate_lock")):
        orig = getattr(mod, name)

        def make(orig=orig):
            from core import PKG_DIR
            if sys._getframe(1).f_code.co_filename.startswith(PKG_DIR):
                return SimLock(orig())
            return orig()
        setattr(mod, name, make)
    getpid = os.getpid

    def pid():
        c = ctx()
        if c is not None and "pids" in c.opt and c.sched is not None \
                and c.sched.cur is not None:
            return c.opt["pids"][c.sched.cur]
        return getpid()
    os.getpid = pid


# -- scipy searches ----------------------------------------------------------
NONFINITE = ("stall-nan", "stall-inf", "nan", "inf")


def _prng(c):
    if c.sched is not None and "prngs" in c.opt:
        return c.opt["prngs"][c.sched.cur]
    return c.opt.get("prng") or c.prng


def _must_be_finite(c, owner, name):
    """Of the restarts of one training, one is never given a non-finite end
    (a training in which no search succeeds at all cannot succeed)."""
    n = getattr(owner, "optimizer_restart", None)
    if not isinstance(n, int):
        return True
    n += 1
    g = c.groups.setdefault((id(owner), name), [0, None])
    k = g[0] % n
    if k == 0:
        g[1] = _prng(c).randrange(n)
    g[0] += 1
    return k == g[1]


class _Rec(dict):
    pass


def _scalar(v):
    return float(np.asarray(v, dtype=float).ravel()[0])


def sim_minimize(fun, x0, args=(), **kw):
    c = ctx()
    orig = real["minimize"]
    if c is None or not c.enabled:
        return orig(fun, x0, args=args, **kw)
    f = c.point("minimize")
    if f:
        _raise_fault(c, f, "minimize")
    o = c.opt
    rec = _Rec(kind="minimize", x0=np.array(x0, dtype=float).copy(),
               bounds=None if kw.get("bounds") is None
               else np.array([tuple(b) for b in kw["bounds"]], dtype=float)
               if not hasattr(kw["bounds"], "lb") else
               np.array([kw["bounds"].lb, kw["bounds"].ub], float).T,
               sid=c.sched.cur if c.sched is not None else None,
               owner=c.opt.get("owner"))

    def wfun(x, *a):
        g = c.point("nll")
        if g:
            _raise_fault(c, g, "likelihood")
        return fun(x, *a)

    mode = None
    p = o.get("end_p", 0.0)
    owner = getattr(fun, "__self__", None)
    rec["self"] = owner
    if "on_search" in o:
        o["on_search"](owner)
    finite = _must_be_finite(c, owner, getattr(fun, "__name__", ""))
    pr = _prng(c)
    if o.get("all_bad"):            # no search of this training succeeds
        mode = o["all_bad"]
    elif p and pr.random() < p:
        mode = pr.choice(o.get("end_modes", ["stall"]))
        if finite and mode in NONFINITE:
            mode = "stall"
    if mode in ("stall", "stall-nan", "stall-inf"):
        c.fire("search-" + mode)
        xx = np.array(x0, dtype=float).copy().ravel()
        if rec["bounds"] is not None:
            xx = np.clip(xx, rec["bounds"][:, 0], rec["bounds"][:, 1])
        val = _scalar(wfun(xx.copy(), *args))
        if mode == "stall-nan":
            val = float("nan")
        elif mode == "stall-inf":
            val = float("inf")
        res = scipy.optimize.OptimizeResult(
            x=xx, fun=val, success=False, status=2, nit=0, nfev=1,
            message="ABNORMAL_TERMINATION_IN_LNSRCH (simulated)",
            jac=np.zeros_like(xx))
    else:
        opts = dict(kw.get("options") or {})
        cap = o.get("maxiter", 8)
        if mode == "early":
            cap = 1
            c.fire("search-early")
        m = opts.get("maxiter")
        opts["maxiter"] = cap if m is None else min(m, cap)
        kw["options"] = opts
        res = orig(wfun, x0, args=args, **kw)
        if mode in ("nan", "inf"):
            c.fire("search-" + mode)
            res.fun = float(mode)
    rec["x"] = np.array(res.x, dtype=float).copy()
    rec["fun"] = _scalar(res.fun)
    c.records.append(rec)
    c.log("minimize", rec["x"], rec["fun"])
    return res


def sim_de(func, bounds, args=(), **kw):
    c = ctx()
    orig = real["differential_evolution"]
    if c is None or not c.enabled:
        return orig(func, bounds, args=args, **kw)
    f = c.point("de")
    if f:
        _raise_fault(c, f, "acquisition-search")
    o = c.opt

    def wfun(x, *a):
        g = c.point("acq")
        if g:
            _raise_fault(c, g, "acquisition-eval")
        return func(x, *a)

    kw = dict(kw)
    kw["maxiter"] = min(kw.get("maxiter", 1000), o.get("de_maxiter", 3))
    kw["popsize"] = min(kw.get("popsize", 15), o.get("de_popsize", 4))
    if not o.get("de_polish", False):
        kw["polish"] = False
    c.fired["acquisition-search-cut"] += 1
    # keyword order of scipy is preserved: everything is passed by name
    res = orig(wfun, bounds, args=args, **kw)
    c.records.append(_Rec(kind="de", x=np.array(res.x).copy(),
                          fun=_scalar(res.fun)))
    c.log("de", np.array(res.x), _scalar(res.fun))
    return res


def _install_scipy():
    real["minimize"] = scipy.optimize.minimize
    real["differential_evolution"] = scipy.optimize.differential_evolution
    scipy.optimize.minimize = sim_minimize
    scipy.optimize.differential_evolution = sim_de
    for mod, name in ((np.linalg, "cholesky"), (np.linalg, "solve"),
                      (scipy.linalg, "cholesky"),
                      (scipy.linalg, "cho_factor"),
                      (scipy.linalg, "solve_triangular"),
                      (scipy.linalg, "cho_solve")):
        _wrap_linalg(mod, name)


def _wrap_linalg(mod, name):
    orig = getattr(mod, name)

    def wrapper(*a, **k):
        c = ctx()
        if c is not None and c.enabled:
            f = c.point("linalg")
            if f:
                _raise_fault(c, f, "linear-algebra")
        return orig(*a, **k)
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(mod, name, wrapper)


class _Null:
    encoding = "utf-8"

    def write(self, s):
        c = ctx()
        if c is not None:
            f = c.point("stdout")
            if f:
                if f["do"] in OUTPUT:
                    c.fire("stdout-" + f["do"])
                    e, a = OUTPUT[f["do"]]
                    raise e(*a)
                _raise_fault(c, f, "stdout")
            if c.printed is not None:
                c.printed.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")


def silence():
    sys.stdout = _Null()


def install():
    global _installed
    if _installed:
        return
    _installed = True
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    # modules that bind names at import are loaded before patching
    import matplotlib.pyplot  # noqa: F401
    import scipy.stats        # noqa: F401
    import scipy.stats.qmc    # noqa: F401
    _install_rng()
    _install_clock()
    _install_scipy()
    _install_process()
    import disk
    disk.install()


_ambient = {}


def _settings():
    import matplotlib
    import os
    return {"filters": list(warnings.filters), "env": dict(os.environ),
            "limit": sys.getrecursionlimit(), "path": list(sys.path),
            "rc": dict.copy(matplotlib.rcParams),
            "print": np.get_printoptions(), "errcall": np.geterrcall(),
            "show": warnings.showwarning}


def _reset_settings():
    """what an earlier run of this process may have left changed"""
    import matplotlib
    import os
    now = _settings()
    if not _ambient:
        _ambient.update(now)
        return
    old = _ambient
    if now["filters"] != old["filters"]:
        warnings.filters[:] = old["filters"]
        warnings._filters_mutated()
    warnings.showwarning = old["show"]
    if now["env"] != old["env"]:
        os.environ.clear()
        os.environ.update(old["env"])
    if now["limit"] != old["limit"]:
        sys.setrecursionlimit(old["limit"])
    if now["path"] != old["path"]:
        sys.path[:] = old["path"]
    if now["rc"] != old["rc"]:
        dict.update(matplotlib.rcParams, old["rc"])
    if now["print"] != old["print"]:
        np.set_printoptions(**old["print"])
    if now["errcall"] is not old["errcall"]:
        np.seterrcall(old["errcall"])


def reset_process_state(seed):
    """ambient state of a new process"""
    _reset_settings()
    np.seterr(all="ignore")
    real["set_state"](real["RandomState"](seed % (2**32))
                      .get_state(legacy=False))
    _pyrandom.seed(seed)
