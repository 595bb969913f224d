"""Core of the simulator: run context, event log, fault plan, scheduler, loader.

One scenario (a JSON value) decides one execution: `Ctx` holds the only source
of pseudo-randomness used inside a run, and every seam (seams.py, disk.py)
reports to the current `Ctx` through `point()`.
"""
import _thread
import hashlib
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import traceback
from collections import Counter

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG_DIR = os.path.join(REPO_SRC, "mfpml") + os.sep


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimFault(Exception):
    """An injected failure of user code (objective raised)."""


class SimInterrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


class SimMemory(MemoryError):
    """An injected allocation failure."""


class SimOutput(OSError):
    """An injected failure of the standard output (full disk)."""


class SimPipe(BrokenPipeError):
    """The reader of the standard output has gone."""


class SimClosed(ValueError):
    """The standard output is closed."""


OUTPUT = {"full": (SimOutput, (28, "No space left on device")),
          "pipe": (SimPipe, (32, "Broken pipe")),
          "closed": (SimClosed, ("I/O operation on closed file",))}
INJECTED = (SimFault, SimInterrupt, SimMemory, SimOutput, SimPipe,
            SimClosed)


class Violation(Exception):
    def __init__(self, cls, msg=""):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Invalid(Exception):
    """The scenario makes no sense (only produced while shrinking)."""


class HarnessError(Exception):
    pass


def _feed(h, v):
    import numpy as np
    if isinstance(v, np.ndarray):
        h.update(str(v.shape).encode())
        h.update(np.ascontiguousarray(v).tobytes()
                 if v.dtype != object else repr(v.tolist()).encode())
    elif isinstance(v, float):
        h.update(v.hex().encode())
    elif isinstance(v, (list, tuple)):
        h.update(b"[")
        for e in v:
            _feed(h, e)
        h.update(b"]")
    else:
        h.update(repr(v).encode())


class Ctx:
    """Everything one simulated run knows."""

    def __init__(self, scn):
        self.scn = scn
        self.prng = random.Random(int(scn.get("seed", 0)) ^ 0x5EED)
        self.h = hashlib.sha256()
        self.sig = hashlib.sha256()     # interleaving / fault signature
        self.sig_n = 0
        self.trace = []
        self.seq = 0
        self.clock = 1.7e9 + float(scn.get("clock0", 0.0))
        self.clock_start = self.clock
        self.clock_advance = 0.0
        self.mono = 5e3                 # clock that is never set
        self.cpu, self.cpu_share = 0.0, 1.0
        self.clock_mode = scn.get("clock", "tick")
        self.fired = Counter()          # fault kinds that really fired
        self.probes = Counter()         # rare conditions reached
        self.counts = Counter()         # seam operations
        self.faults = []                # active fault plan
        self.sched = None
        self.disk = None
        self.rng_mode = {}              # buggify of the random stream
        self.opt = {}                   # behaviour of scipy searches
        self.records = []               # scipy searches seen
        self.groups = {}                # searches per training
        self.entropy = random.Random(int(scn.get("entropy", 0)) ^ 0xE47)
        self.printed = None             # what the program printed
        self.enabled = True
        self.libs = 0                   # simulated processes started

    # -- log ---------------------------------------------------------------
    def log(self, kind, *vals):
        self.seq += 1
        self.h.update(kind.encode())
        _feed(self.h, vals)
        if len(self.trace) < 400:
            self.trace.append(f"{self.seq} {kind} "
                              + " ".join(_short(v) for v in vals))

    def mark(self, *vals):
        """part of the schedule / fault signature of the run"""
        self.sig.update(repr(vals).encode())
        self.sig_n += 1

    def fire(self, kind, **kw):
        self.fired[kind] += 1
        self.mark("fault", kind, sorted(kw.items()))
        self.log("fault", kind, sorted(kw.items()))

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self.h.hexdigest()[:24]

    # -- seams -------------------------------------------------------------
    def point(self, kind):
        """A seam operation: possible preemption, then the planned fault.

        Returns the fault record ({"do": ...}) planned for this operation, or
        None.
        """
        if not self.enabled:
            return None
        if self.sched is not None:
            self.sched.point()
        self.counts[kind] += 1
        if not self.faults:
            return None
        sid = self.sched.cur if self.sched is not None else None
        for f in self.faults:
            if f.get("used"):
                continue
            if f["at"] != kind and f["at"] != "any":
                continue
            if f.get("sid") is not None and f["sid"] != sid:
                continue
            f["left"] = f.get("left", f["n"]) - 1
            if f["left"] < 0:
                f["used"] = True
                return f
        return None

    def plan(self, faults):
        """install a fault plan; counting starts now"""
        self.faults = [{k: v for k, v in f.items()
                        if k not in ("used", "left")} for f in faults]

    def mono_now(self):
        """perf_counter, monotonic"""
        if self.clock_mode != "manual":
            return self.now()
        return self.mono

    def cpu_now(self):
        """process_time, thread_time: only the time this process works"""
        if self.clock_mode != "manual":
            return self.now()
        return self.cpu

    def advance(self, s, step=0.0):
        """time passes; the wall clock may be set at the same time"""
        self.mono += s
        self.cpu += s * self.cpu_share
        self.clock += s + step
        self.clock_advance += s
        if step:
            self.fire("clock-" + ("forward" if step > 0 else "backward"))

    def now(self):
        if self.clock_mode in ("frozen", "manual"):
            return self.clock
        if self.clock_mode == "jump":
            r = self.prng.random()
            if r < 0.15:
                self.fired["clock-backward"] += 1
                self.clock -= self.prng.choice([1e-6, 5.0, 86400.0, 4e8])
                return self.clock
            if r < 0.3:
                self.fired["clock-forward"] += 1
                d = self.prng.choice([60.0, 86400.0, 3e8])
                self.clock += d
                self.clock_advance += d
                return self.clock
        self.clock += 1e-3
        self.clock_advance += 1e-3
        return self.clock


def _short(v):
    s = repr(v)
    s = s.replace("\n", " ")
    return s if len(s) < 120 else s[:117] + "..."


CTX = None


def set_ctx(c):
    global CTX
    CTX = c
    return c


def ctx():
    return CTX


# --------------------------------------------------------------------------
# scheduler: real threads, exactly one of which is released at a time
# --------------------------------------------------------------------------
class Scheduler:
    """Runs session bodies as parked threads; `slices` decides every switch.

    slices is a list of [session, points]: let `session` run for `points`
    seam points, then go on with the next slice.  Slices that name a finished
    session are skipped; when the list is used up the remaining sessions run
    to completion in order.
    """

    def __init__(self, ctx_, slices, swap_rng=True, trace_lines=False):
        self.ctx = ctx_
        self.slices = [list(s) for s in slices]
        self.swap = swap_rng
        self.lines = trace_lines
        self.cur = None
        self.left = 0
        self.switches = 0
        self.total_points = 0
        self.states = {}
        self.alive = []
        self.locks = {}
        self.errors = {}
        self.results = {}
        self.done = _thread.allocate_lock()
        self.max_points = 2_000_000

    def _rng(self):
        import seams
        return seams

    def run(self, bodies, rng_states=None):
        self.n = len(bodies)
        self.alive = list(range(self.n))
        self.done.acquire()
        threads = []
        for i in range(self.n):
            lk = _thread.allocate_lock()
            lk.acquire()
            self.locks[i] = lk
        if self.swap:
            for i in range(self.n):
                self.states[i] = rng_states[i]
        for i, body in enumerate(bodies):
            t = threading.Thread(target=self._main, args=(i, body),
                                 daemon=True)
            t.start()
            threads.append(t)
        first = self._next()
        self._enter(first)
        self.locks[first].release()
        while not self.done.acquire(timeout=5):
            pass                # let signal handlers run
        for t in threads:
            t.join()
        self.cur = None
        return self.results, self.errors

    def _next(self):
        while self.slices:
            s, p = self.slices.pop(0)
            if s in self.alive and p > 0:
                self.left = p
                return s
        self.left = -1          # to completion
        return self.alive[0]

    def _enter(self, i):
        self.cur = i
        self.ctx.mark("run", i)
        if self.swap:
            self._rng().set_global_state(self.states[i])

    def _leave(self, i):
        if self.swap:
            self.states[i] = self._rng().get_global_state()

    def point(self):
        i = self.cur
        if i is None:
            return
        self.total_points += 1
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        nxt = self._next()
        if nxt == i:
            return
        self._switch(i, nxt)

    def blocked(self):
        """the running session waits for another one; False if it is alone"""
        i = self.cur
        others = [a for a in self.alive if a != i]
        if not others:
            return False
        self._switch(i, next((a for a in others if a > i), others[0]))
        return True

    def _switch(self, i, nxt):
        self.switches += 1
        self.ctx.mark("sw", i, nxt, self.total_points)
        self._leave(i)
        self._enter(nxt)
        self.locks[nxt].release()
        self.locks[i].acquire()

    def _main(self, i, body):
        self.locks[i].acquire()
        try:
            if self.lines:
                sys.settrace(line_tracer(lambda: self.ctx.point("line")))
            self.results[i] = body()
        except BaseException as e:          # noqa: BLE001
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self._leave(i)
            self.alive.remove(i)
            if self.alive:
                nxt = self._next()
                self._enter(nxt)
                self.locks[nxt].release()
            else:
                self.done.release()


def line_tracer(on_line, skip=()):
    pkg = PKG_DIR

    def local(frame, event, arg):
        if event == "line":
            on_line()
        return local

    def glob(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(pkg) and not name.endswith(skip):
            return local
        return None
    return glob


class interrupt_at_line:
    """Raise `exc` at the n-th source line executed inside mfpml."""

    def __init__(self, n, exc=SimInterrupt, skip=()):
        self.n = n
        self.skip = tuple(skip)
        self.exc = exc
        self.count = 0
        self.hit = False

    def __enter__(self):
        def on_line():
            self.count += 1
            if not self.hit and self.count > self.n:
                self.hit = True
                c = ctx()
                if c is not None:
                    c.fire("alloc-failure-at-line"
                           if issubclass(self.exc, MemoryError)
                           else "interrupt-at-line")
                raise self.exc("injected")
        self.old = sys.gettrace()
        sys.settrace(line_tracer(on_line, self.skip))
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


# --------------------------------------------------------------------------
# fresh process state: mfpml is re-executed for every run
# --------------------------------------------------------------------------
_CODE = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _CODE.get(fullname)
        if c is None:
            with _real_open(self.path, "rb") as f:
                src = f.read()
            c = compile(src, self.path, "exec", dont_inherit=True)
            _CODE[fullname] = c
        return c

    def exec_module(self, module):
        module.__dict__["hash"] = Lib.hash
        super().exec_module(module)


_real_open = open


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "mfpml" and not name.startswith("mfpml."):
            return None
        base = os.path.join(REPO_SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(name, base + ".py"))
        return None


_PRE = None


def purge():
    for k in [k for k in sys.modules
              if k == "mfpml" or k.startswith("mfpml.")]:
        del sys.modules[k]


def process_hash():
    """hash() as the next simulated process knows it: every process has its
    own hashes of strings (the run's first one those of this interpreter)"""
    c = ctx()
    n = 0
    if c is not None:
        n, c.libs = c.libs, c.libs + 1
    if n == 0:
        return hash

    def salted(o):
        if isinstance(o, (str, bytes)) and o:
            d = hashlib.blake2b(repr((n, o)).encode(), digest_size=8).digest()
            return int.from_bytes(d, "little", signed=True) >> 3
        if type(o) is tuple:
            return hash(tuple(salted(x) for x in o))
        if type(o) is frozenset:
            return hash(frozenset(salted(x) for x in o))
        return hash(o)
    return salted


class Lib:
    """Handles to the public names of one freshly imported mfpml."""

    hash = hash

    def __init__(self):
        Lib.hash = staticmethod(process_hash())
        purge()
        import importlib
        im = importlib.import_module
        try:
            self._load(im)
        except Exception as e:
            raise Violation("import-failed", f"{type(e).__name__}: {e}")

    def _load(self, im):
        sfs = im("mfpml.design_of_experiment.sf_samplers")
        mfs = im("mfpml.design_of_experiment.mf_samplers")
        ea = im("mfpml.optimization.evolutionary_algorithms")
        gp = im("mfpml.models.gaussian_process")
        hk = im("mfpml.models.hierarchical_kriging")
        sk = im("mfpml.models.scale_kriging")
        ck = im("mfpml.models.co_kriging")
        bf = im("mfpml.models.basis_functions")
        kn = im("mfpml.models.kernels")
        sa = im("mfpml.optimization.sf_uncons_acqusitions")
        ca = im("mfpml.optimization.sf_cons_acqusitions")
        ma = im("mfpml.optimization.mf_acqusitions")
        sb = im("mfpml.optimization.sf_uncons_bo")
        cb = im("mfpml.optimization.sf_cons_bo")
        mb = im("mfpml.optimization.mf_uncons_bo")
        pf = im("mfpml.problems.functions")
        psf = im("mfpml.problems.sf_functions")
        pmf = im("mfpml.problems.mf_functions")
        pcf = im("mfpml.problems.sf_cons_functions")
        self.FixNumberSampler = sfs.FixNumberSampler
        self.LatinHyperCube = sfs.LatinHyperCube
        self.RandomSampler = sfs.RandomSampler
        self.SobolSequence = sfs.SobolSequence
        self.MFLatinHyperCube = mfs.MFLatinHyperCube
        self.MFSobolSequence = mfs.MFSobolSequence
        self.PSO, self.DE = ea.PSO, ea.DE
        self.GP = gp.GaussianProcessRegression
        self.HK = hk.HierarchicalKriging
        self.SK = sk.ScaledKriging
        self.CK = ck.CoKriging
        self.RBF = kn.RBF
        self.Ordinary, self.Linear, self.Quadratic = (
            bf.Ordinary, bf.Linear, bf.Quadratic)
        self.EI, self.LCB, self.PI = sa.EI, sa.LCB, sa.PI
        self.CEI = ca.CEI
        self.AugmentedEI = ma.AugmentedEI
        self.VFEI = ma.VFEI
        self.VFLCB = ma.VFLCB
        self.ExtendedPI = ma.ExtendedPI
        self.BayesUnConsOpt = sb.BayesUnConsOpt
        self.BayesConsOpt = cb.BayesConsOpt
        self.mfUnConsBayesOpt = mb.mfUnConsBayesOpt
        self.Functions = pf.Functions
        self.psf, self.pmf, self.pcf = psf, pmf, pcf


def install_finder():
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)


def through_mfpml(e):
    """does the traceback of e pass through the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG_DIR):
            return True
        tb = tb.tb_next
    return False


def where_in_mfpml(e):
    last = "?"
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(PKG_DIR):
            last = f"{fr.filename[len(PKG_DIR):]}:{fr.name}"
    return last
