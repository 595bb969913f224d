"""Shared helpers of the property modules."""
import copy
import io
import math
import pickle
import types

import numpy as np

from core import Violation


def pick(r, *xs):
    return xs[r.randrange(len(xs))]


def chance(r, p):
    return r.random() < p


def same(a, b):
    """bit-identical values (NaN equal to NaN), any structure"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return same(a.tolist(), b.tolist())
        return bool(np.array_equal(a, b, equal_nan=True)) \
            if a.dtype.kind in "fc" and b.dtype.kind in "fc" \
            else bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    try:
        return bool(a == b)
    except Exception:
        return a is b


def need(cond, cls, msg=""):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


def arr(x):
    return np.asarray(x, dtype=float)


def snap(x):
    return copy.deepcopy(x)


def gen_space(r, d, wide=True):
    """a legal design space with d dimensions"""
    out = []
    for _ in range(d):
        k = r.randrange(9 if wide else 4)
        if k in (0, 1):
            lo, hi = 0.0, 1.0
        elif k == 2:
            lo = round(r.uniform(-5, 5), 3)
            hi = round(lo + r.uniform(0.5, 10), 3)
        elif k == 3:
            lo, hi = -round(r.uniform(0.1, 9), 2), round(r.uniform(0.1, 9), 2)
        elif k == 4:
            lo = float(r.randrange(-1000, 1000))
            hi = lo + float(r.randrange(1, 50))
        elif k == 5:
            lo = round(r.uniform(-2, 2), 3)
            hi = round(lo + r.uniform(0.001, 0.01), 5)
        elif k == 6:
            hi = -round(r.uniform(0.1, 3), 2)
            lo = round(hi - r.uniform(0.1, 50), 2)
        elif k == 7:
            e = pick(r, 1e-9, 1e-7, 1e-4, 1e5, 1e8)
            lo = round(r.uniform(-3, 3), 2) * e
            hi = lo + round(r.uniform(0.5, 5), 2) * e
        else:
            lo, hi = -round(r.uniform(100, 1e4), 1), \
                round(r.uniform(100, 1e4), 1)
        out.append([lo, hi])
    return out


def in_space(x, space, dtype=None):
    """up to rounding in the precision the space is given in"""
    x = np.atleast_2d(arr(x))
    s = arr(space)
    tol = 8 * np.finfo("float32" if dtype == "float32" else float).eps \
        * np.maximum(
        np.max(np.abs(s), axis=1), s[:, 1] - s[:, 0])
    return bool(np.all(x >= s[:, 0] - tol) and np.all(x <= s[:, 1] + tol)
                and np.all(np.isfinite(x)))


# -- objectives --------------------------------------------------------------
SHAPES = ["sphere", "rastrigin", "plateau", "linear", "constant", "step",
          "neg", "valley", "hashy"]


def gen_obj(r, nonfinite=True, outs=True):
    o = {"shape": pick(r, *SHAPES), "c": round(r.random(), 3),
         "scale": pick(r, 1.0, 1.0, 1.0, 1e-9, 1e9, 3.7),
         "off": pick(r, 0.0, 0.0, -3.0, 100.0, 5.5)}
    if nonfinite and chance(r, 0.4):
        o["bad"] = pick(r, "nan", "inf", "mix", "nan", "all-inf-first",
                        "minus-inf")
        o["bad_p"] = pick(r, 0.05, 0.2, 0.5, 0.9)
    if outs:
        o["out"] = pick(r, "col", "col", "flat", "list", "buffer",
                        "buffer-flat", "f32")
    if chance(r, 0.15):
        o["noisy"] = True
    return o


def base_value(o, x, space):
    """row-wise pure function of x (on the unit cube scale)"""
    s = arr(space)
    u = (np.atleast_2d(arr(x)) - s[:, 0]) / (s[:, 1] - s[:, 0])
    c = o["c"]
    k = o["shape"]
    if k == "sphere":
        y = np.sum((u - c) ** 2, axis=1)
    elif k == "rastrigin":
        y = np.sum((u - c) ** 2 - 0.1 * np.cos(18 * (u - c)), axis=1)
    elif k == "plateau":
        y = np.round(np.sum(np.abs(u - c), axis=1) * 2) / 2
    elif k == "linear":
        y = np.sum(u * np.arange(1, u.shape[1] + 1), axis=1) * \
            (1 if c > 0.5 else -1)
    elif k == "constant":
        y = np.full(u.shape[0], 1.25)
    elif k == "step":
        y = np.where(np.sum(u, axis=1) > c * u.shape[1], 1.0, 0.0)
    elif k == "neg":
        y = -10.0 - np.sum(np.sin(5 * u + c), axis=1)
    elif k == "valley":
        y = (u[:, 0] - c) ** 2 + 100 * np.sum(
            (u[:, 1:] - u[:, :-1] ** 2) ** 2, axis=1)
    else:
        y = np.sin(1e4 * np.sum(u * np.arange(1, u.shape[1] + 1), axis=1) + c)
    return o["off"] + o["scale"] * y


class Objective:
    """A user's objective under simulation; records every evaluation."""

    def __init__(self, c, o, space, on_call=None):
        self.c, self.o, self.space = c, o, space
        self.X, self.Y = [], []         # rows in evaluation order
        self.calls = []                 # rows per call
        self.begun = 0
        self.on_call = on_call
        self.buf = None
        self.argcheck = None
        self.scratch = False        # uses its argument as scratch space

    def __deepcopy__(self, memo):
        return self                 # the user's function, not data

    def __getstate__(self):
        return dict(self.__dict__, c=None, on_call=None)

    def __setstate__(self, d):
        from core import ctx
        self.__dict__.update(d, c=ctx())

    def __call__(self, x, *args):
        self.begun += 1
        if self.on_call is not None:
            self.on_call(self)
        f = self.c.point("objective")
        xs = np.array(x, dtype=float, copy=True)
        if f:
            from core import SimFault, SimInterrupt
            do = f["do"]
            if do == "raise":
                self.c.fire("objective-raises")
                raise SimFault("objective failed")
            if do == "interrupt":
                self.c.fire("interrupt@objective")
                raise SimInterrupt("injected")
            if do in ("crash", "power"):
                self.c.fire(do + "@objective")
                self.c.disk.kill(do == "power")
        y = self.values(xs, args)
        rows = np.atleast_2d(xs)
        for i in range(rows.shape[0]):
            self.X.append(rows[i].copy())
            self.Y.append(float(y[i]))
        self.calls.append(rows.shape[0])
        self.c.log("eval", rows, y)
        if self.scratch and isinstance(x, np.ndarray):
            x[...] = 0
        out = self.o.get("out", "col")
        if out == "col":
            return y.reshape(-1, 1).copy()
        if out == "flat":
            return y.copy()
        if out == "list":
            return [float(v) for v in y]
        if out == "f32":
            return y.astype(np.float32).reshape(-1, 1)
        if self.buf is None or self.buf.size != y.size:
            self.buf = np.zeros(y.size)
        self.buf[:] = y
        return self.buf.reshape(-1, 1) if out == "buffer" else self.buf

    def values(self, xs, args):
        o = self.o
        y = base_value(o, xs, self.space)
        if args:
            y = y + sum(float(a) for a in args)
        if o.get("noisy"):
            k = len(self.Y) + np.arange(y.size)
            y = y + 0.3 * abs(o["scale"]) * np.sin(k * 12.9898)
        if o.get("bad"):
            xs2 = np.atleast_2d(xs)
            for i in range(y.size):
                h = np.sin(np.sum(xs2[i]) * 1e3 + len(self.Y) + i) * 43758.5453
                h = h - np.floor(h)
                b = o["bad"]
                if b == "all-inf-first":
                    if len(self.calls) == 0:
                        y[i] = np.inf
                elif h < o["bad_p"]:
                    y[i] = {"nan": np.nan, "inf": np.inf,
                            "minus-inf": -np.inf}.get(
                        b, np.nan if (i % 2) else np.inf)
            self.c.probe("nonfinite-answers",
                         int(np.sum(~np.isfinite(y))))
        if o.get("out") == "f32":
            y = y.astype(np.float32).astype(float)
        return y

    def rows(self):
        if not self.X:
            return np.zeros((0, len(self.space))), np.zeros(0)
        return np.array(self.X), np.array(self.Y)


# -- pickling ------------------------------------------------------------------
class _Pickler(pickle.Pickler):
    """The function a user's population search was last asked to minimise may
    be a local one of the library; it is not needed any more."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.left = set()

    def persistent_id(self, o):
        if type(o) is types.FunctionType:
            return "function" if id(o) in self.left else None
        if type(o).__module__ == "mfpml.optimization.evolutionary_algorithms" \
                and hasattr(o, "__dict__"):
            for v in vars(o).values():
                for f in [v] + list(getattr(v, "__dict__", {}).values()):
                    f = getattr(f, "func", f)
                    if type(f) is types.FunctionType and "<locals>" in \
                            f.__qualname__ and f.__module__.startswith(
                                "mfpml"):
                        self.left.add(id(f))
        return None


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        return None


def dumps(obj, proto=None):
    b = io.BytesIO()
    try:
        _Pickler(b, proto).dump(obj)
    except (pickle.PicklingError, AttributeError, TypeError) as e:
        raise Violation("cannot-be-pickled", f"{type(e).__name__}: {e}") from e
    return b.getvalue()


def loads(blob):
    try:
        return _Unpickler(io.BytesIO(blob)).load()
    except (pickle.UnpicklingError, AttributeError, TypeError, KeyError,
            ImportError) as e:
        raise Violation("cannot-be-restored", f"{type(e).__name__}: {e}") from e


def deepcopy(obj):
    try:
        return copy.deepcopy(obj)
    except (pickle.PicklingError, AttributeError, TypeError) as e:
        raise Violation("cannot-be-copied", f"{type(e).__name__}: {e}") from e
