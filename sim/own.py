"""C26, C27: what an object owns, and what the process owns."""
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

import bo
import doe
import ea
import iso
import models
import seams
from core import INJECTED, Invalid, Lib, Violation, interrupt_at_line
from iso import diff, near
from share import Kit, gen_kit, gen_query, quiet_search
from util import Objective, arr, chance, gen_obj, need, pick, same, snap

REAL = ["mfpml (all packages)", "numpy", "scipy searches inside their seams"]


def spoil(v, how):
    """the caller goes on using an array or list of its own"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = {"zero": 0, "scale": v * 3 + 1, "swap": v[::-1].copy()
                      }[how] if v.dtype.kind in "fiu" else v
    elif isinstance(v, list):
        for j, e in enumerate(v):
            if isinstance(e, (np.ndarray, list)):
                spoil(e, how)
            elif isinstance(e, (int, float)):
                v[j] = type(e)(e * 3 + 1) if how != "zero" else type(e)(0)
    elif isinstance(v, tuple):
        for e in v:
            spoil(e, how)
    elif isinstance(v, dict):
        for e in v.values():
            spoil(e, how)


HOW = ["zero", "scale", "swap"]


class C26:
    id = "C26"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("the same history of calls on one object twice with the same "
            "random numbers, once with a caller that edits in place, after "
            "each call, the arrays and lists it had passed in and those it "
            "was handed out (and whose functions use their argument as "
            "scratch space and answer in parts of one buffer); what the "
            "object does afterwards must be the same; non-trivial: at least "
            "one edit before a later call")
    real = REAL
    stub = ["the caller and its functions (recorded)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "model", "model", "acq", "kit", "kit", "sampler", "ea",
                    "bo", "bo")
        scn = {"what": what, "np": r.randrange(2 ** 31),
               "how": [pick(r, *HOW) for _ in range(4)]}
        if what == "model":
            m = models.gen_model(r)
            m["restart"] = pick(r, 0, 1)
            m.pop("own", None)
            scn["m"] = m
            scn["ops"] = [{"do": "train", "data": models.gen_data(r, m)}]
            for _ in range(pick(r, 1, 2, 3)):
                scn["ops"].append(
                    {"do": "train", "data": models.gen_data(r, m)}
                    if chance(r, 0.4) else
                    {"do": "predict", "s": r.randrange(2 ** 31),
                     "n": pick(r, 1, 2, 2, 3), "std": chance(r, 0.7),
                     "lf": chance(r, 0.3)})
        elif what == "acq":
            m = models.gen_model(r, ["GP", "HK"])
            m["opt"] = None
            m["restart"] = 0
            scn.update(m=m, data=models.gen_data(r, m), given=chance(r, 0.5),
                       kappa=pick(r, [1.0, 1.96], [0.5, 2.0]))
            scn["ops"] = [{"s": r.randrange(2 ** 31), "n": pick(r, 1, 3),
                           "new": chance(r, 0.5), "f": r.randrange(2)}
                          for _ in range(pick(r, 2, 3))]
        elif what == "kit":
            scn["kit"] = gen_kit(r, ("GP", "HK", "HK", "SK", "CK"))
            scn["ops"] = [gen_query(r) for _ in range(pick(r, 1, 2, 3))]
            for o in scn["ops"]:
                o["do"] = pick(r, o["do"], "eval")
        elif what == "sampler":
            s = doe.gen_sampler(r)
            scn["s"] = s
            scn["ops"] = [{"num": doe.gen_size(r, s), "s": pick(
                r, doe.gen_seed(r), doe.gen_seed(r), None)}
                for _ in range(pick(r, 2, 3))]
        elif what == "ea":
            scn["alg"] = ea.gen_alg(r)
            scn["ops"] = [ea.gen_run(r) for _ in range(pick(r, 1, 2))]
            for u in scn["ops"]:
                u["obj"].pop("noisy", None)
                u["obj"]["out"] = pick(r, "col", "flat", "buffer")
        else:
            s = bo.gen_session(r, pick(r, "sf", "cons", "mf"))
            s["opt"].pop("polish", None)
            s["opt"].update(de_maxiter=0, de_popsize=2)
            s["problem"].pop("buffer", None)
            if chance(r, 0.5):
                s["acq"] = bo.gen_plan(r)
            scn["session"] = s
            scn["calls"] = [pick(r, 1, 2, 3) for _ in range(pick(r, 1, 2, 3))]
            scn["scratch"] = chance(r, 0.5)
            scn["slice"] = chance(r, 0.5)
        return scn

    @staticmethod
    def run(scn, c):
        body = getattr(C26, scn["what"])
        out = []
        c.edits = 0
        for edit in (False, True):
            lib = c.lib = Lib()
            c.recs = {}
            quiet_search(c, prng=random.Random(scn["np"]))
            c.entropy = random.Random(scn["np"] ^ 0x1234)
            c.clock_mode = "tick"
            seams.set_global_state(seams.seed_state(scn["np"]))
            c.handed = []
            try:
                out.append(body(scn, c, lib, edit))
            except (Invalid, Violation, *INJECTED):
                raise
            except Exception as e:      # noqa: BLE001
                out.append(e)
            for j, (v, was) in enumerate(c.handed):
                need(same(v, was), "handed-out-array-written",
                     lambda: f"{scn['what']}: result {j}: {diff(was, v)}")
        c.nontrivial = c.edits > 0
        if isinstance(out[0], Exception):
            raise Invalid("the calls fail without edits")
        if not same(out[0], out[1]):
            c.probe("not-bit-identical")
        need(not isinstance(out[1], Exception), "edited-array-leaks",
             lambda: f"{scn['what']}: {out[1]!r:.200}")
        need(near(out[0], out[1]), "edited-array-leaks",
             lambda: f"{scn['what']}: {diff(out[0], out[1])}")

    @staticmethod
    def out(c, edit, v):
        """handed out: nobody writes to it again, its parts are separate"""
        if not edit:
            c.handed.append((v, snap(v)))
            return snap(v)
        parts = [a for a in (v if isinstance(v, (list, tuple)) else [v])
                 if isinstance(a, np.ndarray)]
        for j, a in enumerate(parts):
            for b in parts[j + 1:]:
                need(a is b or not np.shares_memory(a, b),
                     "handed-out-arrays-overlap", "")
        return snap(v)

    @staticmethod
    def spoil(c, scn, edit, *vs):
        if not edit:
            return
        for j, v in enumerate(vs):
            c.edits += 1
            c.fire("caller-edits")
            spoil(v, scn["how"][j % 4])

    @staticmethod
    def model(scn, c, lib, edit):
        m = scn["m"]
        space = np.array(m["space"], dtype=float)
        kb = list(m.get("kernel") or [-2.0, 3.0])
        rb = list(m.get("rho_bound") or [0.1, 5.0])
        theta = np.zeros(m["dim"])
        mod = iso.C19.model(lib, m, space, kb, rb, theta)
        out = []
        C26.spoil(c, scn, edit, space, kb, rb, theta)
        for o in scn["ops"]:
            if o["do"] == "train":
                D = snap(models.data(m, o["data"]))
                c.groups.clear()
                try:
                    mod.train(D[0], D[1])
                except np.linalg.LinAlgError:
                    raise Invalid("not trainable")
                C26.spoil(c, scn, edit, D[0], D[1])
            else:
                P = models.query_points(o["s"], o["n"], m)
                f = mod.predict_lf if o["lf"] and m["kind"] != "GP" \
                    else mod.predict
                y = f(P, return_std=o["std"])
                out.append(C26.out(c, edit, y))
                C26.spoil(c, scn, edit, P, y)
            out.append(models.predictions(
                mod, m, models.query_points(3, 2, m)))
        return out

    @staticmethod
    def acq(scn, c, lib, edit):
        m = scn["m"]
        D = models.data(m, scn["data"])
        mod = models.make(lib, m)
        try:
            mod.train(D[0], D[1])
        except np.linalg.LinAlgError:
            raise Invalid("not trainable")
        cls = lib.LCB if m["kind"] == "GP" else lib.VFLCB
        k = list(scn["kappa"])
        out = []
        acq = None
        for o in scn["ops"]:
            if acq is None or o["new"]:
                if edit and acq is not None:
                    # another instance is set up differently
                    C26.spoil(c, scn, True, acq.kappa)
                k = list(scn["kappa"])
                acq = cls(kappa=k) if scn["given"] else cls()
            P = models.query_points(o["s"], o["n"], m)
            C26.spoil(c, scn, edit, k)
            y = acq.eval(P, mod) if m["kind"] == "GP" else \
                acq.eval(P, mod, 2.0, o["f"])
            out.append(C26.out(c, edit, y))
            C26.spoil(c, scn, edit, P, y)
        return out

    @staticmethod
    def kit(scn, c, lib, edit):
        kit = Kit(lib, scn["kit"])
        mine = snap(kit.D)
        kit.train(c)
        kit.D, D = mine, kit.D
        C26.spoil(c, scn, edit, *D)
        c.groups.clear()
        out = []
        for o in scn["ops"]:
            y = kit.do(o)
            out.append(y)
            C26.spoil(c, scn, edit, *D)
        return out

    @staticmethod
    def sampler(scn, c, lib, edit):
        s = scn["s"]
        keep = {}
        smp = doe.make(lib, s, keep)
        C26.spoil(c, scn, edit, keep["space"])
        out = []
        for o in scn["ops"]:
            num = snap(o["num"])
            got = doe.request(smp, s, num, o["s"])
            out.append(C26.out(c, edit, got))
            C26.spoil(c, scn, edit, num, got)
            out.append(snap(doe.current(smp, s)))
        return out

    @staticmethod
    def ea(scn, c, lib, edit):
        opt = ea.make(lib, scn["alg"])
        out = []
        for u in scn["ops"]:
            o = u["obj"]
            if not edit and o.get("out") == "buffer":
                o = dict(o, out="col")
            obj = Objective(c, o, u["space"])
            obj.scratch = edit
            space = ea.space_of(u)
            got = ea.call(opt, obj, u, space=space)
            c.edits += edit
            C26.out(c, edit, [*got[1:], *([got[0]] if isinstance(
                got[0], dict) and not edit else [])])
            out.append([np.array(obj.X), np.array(obj.Y), snap(got[1]),
                        snap(got[2]), snap(got[0])
                        if isinstance(got[0], dict) else None])
            C26.spoil(c, scn, edit, space, got[0], got[2])
        return out

    @staticmethod
    def bo(scn, c, lib, edit):
        s = snap(scn["session"])
        kind = s["kind"]
        if edit and scn["scratch"]:
            s["problem"]["scratch"] = True
            c.edits += 1
        if edit and scn["slice"]:
            s["problem"]["buffer"] = "slice"
            c.edits += 1
        init = snap(s["init"])
        if edit and s["acq"]["acq"] == "plan":
            s["acq"]["reuse"] = True
        acq = bo.make_acq(lib, s["acq"])
        prob = bo.make_problem(s["problem"], int(edit))
        opt = bo.create(c, s, int(edit), init=init, acq=acq, prob=prob)
        c.opt["prng"] = random.Random(scn["np"])
        C26.spoil(c, scn, edit, init)
        for n in scn["calls"]:
            try:
                got = bo.go(opt, s, n, 1e-12)
            except np.linalg.LinAlgError:
                c.probe("linalg-skip")
                break
            if got is not None:
                C26.out(c, edit, got)
                C26.spoil(c, scn, edit, got)
        rec = c.recs[int(edit)]
        face = [snap(opt.sample), snap(opt.best), snap(opt.history_best),
                snap(opt.history_best_x), [snap(opt.obj_response),
                                   snap(opt.cons_response)]
                if kind == "cons" else snap(opt.response)]
        return [[str(w), X, Y] for w, X, Y in rec.log] + face


# --------------------------------------------------------------------------
def process_settings(c):
    import decimal
    import gc
    import locale

    import matplotlib
    from matplotlib import _pylab_helpers
    np_print = {k: v for k, v in np.get_printoptions().items()}
    return {
        "numpy error handling": dict(np.geterr()),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": repr(sorted(np_print.items(), key=str)),
        "warning filters": repr(warnings.filters),
        "showwarning": repr(warnings.showwarning),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "threads": threading.active_count(),
        "python random state": hash(random.getstate()),
        "garbage collector": gc.isenabled(),
        "module path": list(sys.path),
        "signal handlers": [repr(signal.getsignal(k)) for k in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "plot settings": dict(matplotlib.rcParams),
        "open figures": sorted(_pylab_helpers.Gcf.figs),
        "umask": C27.umask(),
        "open files": C27.fds(),
        "trace function": repr(sys.gettrace()),
        "exception hooks": [id(sys.excepthook), id(threading.excepthook)],
    }


class C27:
    id = "C27"
    runs = {"quick": 5500, "thorough": 90000}
    rule = ("a history of calls on all components, some failing at seams and "
            "source lines; after every call the settings of the process "
            "(numpy error handling and print options, warning filters, "
            "working directory, environment, streams, signal handlers, "
            "threads, open files, figures, plot settings, Python's random "
            "state, files in the working directory) are as before; "
            "non-trivial: at least two calls")
    real = REAL
    stub = ["the user's functions (recorded, may fail)",
            "Ctrl-C and allocation failures (injected)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def umask():
        m = os.umask(0o22)
        os.umask(m)
        return m

    @staticmethod
    def fds():
        try:
            return len(os.listdir("/proc/self/fd"))
        except OSError:
            return 0

    @staticmethod
    def gen(r, tier, i):
        scn = iso.C19.gen(r, tier, i)
        scn["save"] = [chance(r, 0.5) for _ in scn["ops"]]
        for o in scn["ops"]:
            if o["do"] in ("sf-bo", "cons-bo", "mf-bo", "ea") and \
                    chance(r, 0.5):
                o["print"] = True
                if chance(r, 0.6):      # somewhere in what it prints
                    o["fault"] = {"at": "stdout", "n": r.randrange(24),
                                  "do": pick(r, "full", "pipe", "closed",
                                             "interrupt")}
            elif chance(r, 0.2):
                o.update(do="save", mf=chance(r, 0.3), where=pick(
                    r, "here", "here", "rel", "abs"), bad=pick(
                        r, None, None, "folder", "missing"))
        for k in ("divide", "over", "under", "invalid"):
            scn[k] = pick(r, "ignore", "warn")
        scn["prec"] = pick(r, 8, 4, 12)
        return scn

    @staticmethod
    def run(scn, c):
        import io
        old_err = np.geterr()
        old_print = np.get_printoptions()
        np.seterr(**{k: scn[k] for k in ("divide", "over", "under",
                                         "invalid")})
        np.set_printoptions(precision=scn["prec"])
        try:
            # modules the library loads late are loaded now
            before = process_settings(c)
            lib = c.lib = Lib()
            C27.same(before, process_settings(c), "import")
            C27.body(scn, c, lib)
        finally:
            np.seterr(**old_err)
            np.set_printoptions(**old_print)

    @staticmethod
    def same(a, b, when):
        for k in a:
            need(a[k] == b[k], "process-settings-changed",
                 lambda: f"{k} after {when}: {C27.short(a[k], b[k])}")

    @staticmethod
    def short(a, b):
        if isinstance(a, dict):
            return {k: (a.get(k), b.get(k)) for k in sorted(
                set(a) | set(b), key=str) if a.get(k) != b.get(k)}
        return f"{str(a)[:150]} -> {str(b)[:150]}"

    @staticmethod
    def body(scn, c, lib):
        m = scn["model"]
        space = np.array(m["space"], dtype=float)
        datas = [models.data(dict(m, kind="HK"), g) for g in scn["data"]]
        quiet_search(c, prng=random.Random(5))
        mod = iso.C19.model(lib, m, space, list(
            m.get("kernel") or [-2.0, 3.0]), list(
            m.get("rho_bound") or [0.1, 5.0]), np.zeros(m["dim"]))
        env = dict(lib=lib, m=m, space=space, num=list(scn["num"]),
                   init=list(scn["num"]), kappa=list(scn["kappa"]),
                   odd=[9, 4], table=np.ones((4, 1)),
                   args=tuple(scn["args"]), datas=datas,
                   P=np.vstack([models.query_points(5, 4, m)] + [
                       X[:4] for D in datas for X in D[0]]), mod=mod,
                   trained=False, c=c, scn=scn, pool=iso.Pool(), objs={})
        env["one"] = env["P"][0].copy()
        c.nontrivial = len(scn["ops"]) >= 2
        for k, o in enumerate(scn["ops"]):
            f = o.get("fault")
            seams.set_global_state(seams.seed_state(o["s"]))
            c.groups.clear()
            files = sorted(os.listdir("."))
            before = process_settings(c)
            try:
                if f and "frac" in f:
                    iso.C19.dry(env, o, C27.step, k)
                    C27.same(before, process_settings(c), o["do"])
                    with iso.anywhere(f, env["lines"]):
                        C27.step(env, o, k)
                elif f and "line" in f:
                    with interrupt_at_line(f["line"]):
                        C27.step(env, o, k)
                else:
                    c.plan([dict(f)] if f else [])
                    C27.step(env, o, k)
                c.probe("ok-" + o["do"])
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e) and not isinstance(e, Invalid):
                    raise
                c.probe("failed-" + o["do"])
            c.plan([])
            C27.same(before, process_settings(c), o["do"])
            now = sorted(os.listdir("."))
            allowed = {"ea": "step_results", "save": f"design{k}"}.get(
                o["do"])
            new = [n for n in now if n not in files and not (
                allowed and n.startswith(allowed))]
            need(not new, "unexpected-files", lambda: f"{o['do']}: {new}")
            gone = [n for n in files if n not in now
                    and not n.endswith(".tmp")]
            need(not gone, "files-removed", lambda: f"{o['do']}: {gone}")

    @staticmethod
    def step(env, o, k):
        lib, c, scn = env["lib"], env["c"], env["scn"]
        if not hasattr(c, "recs"):
            c.recs = {}
        if o["do"] == "save":
            if o.get("mf"):
                s = getattr(lib, ["MFLatinHyperCube", "MFSobolSequence"][
                    o["v"] % 2])(design_space=env["space"], num_fidelity=2,
                                 nested=bool(o["v"] & 4))
                s.get_samples(num_samples=[3, 6], seed=3)
            else:
                s = getattr(lib, ["LatinHyperCube", "RandomSampler",
                                  "SobolSequence"][o["v"] % 3])(
                    design_space=env["space"])
                s.get_samples(num_samples=4, seed=3)
            n = f"design{k}"
            where = o.get("where", "here")
            if where != "here":
                n += "-saved"
                os.makedirs(n, exist_ok=True)
                n = os.path.join(n if where == "rel" else
                                 os.path.abspath(n), "x")
            if o.get("bad") == "folder":
                os.makedirs(n + ".pickle", exist_ok=True)
            elif o.get("bad") == "missing":
                n = os.path.join(n, "y")
            try:
                s.save_data(file_name=n)
            except OSError:
                if not o.get("bad"):
                    raise
                c.fire("cannot-save")
        elif o["do"] == "ea" and scn["save"][k % len(scn["save"])]:
            opt = ea.make(lib, {"alg": ["PSO", "DE"][o["v"] % 2], "pop": 4,
                                "gen": 2, "kw": {}})
            ob = Objective(c, scn["obj"], env["m"]["space"])
            opt.run_optimizer(ob, env["m"]["dim"], env["space"],
                              args=env["args"], save_step_results=True,
                              print_info=True)
        else:
            iso.C19.step(env, o)


PROPS = [C26, C27]
