"""C30-C32: what is printed, where random numbers come from, what is kept."""
import gc
import random
import re
import weakref

import numpy as np

import bo
import doe
import ea
import models
import seams
import util
from core import INJECTED, Invalid, Lib, Violation
from share import Kit, gen_kit, gen_query, quiet_search
from util import Objective, arr, chance, need, pick, same, snap

REAL = ["mfpml (all packages)", "numpy", "scipy searches inside their seams"]


# --------------------------------------------------------------------------
class Screen(list):
    """the terminal: every write with the number of evaluations by then"""

    def __init__(self, count):
        super().__init__()
        self.count = count

    def append(self, s):
        super().append((s, self.count()))

    def entries(self):
        """(label, value text, evaluations) in the order printed"""
        text, at = "", []
        for s, n in self:
            text += s
            at += [n] * len(s)
        for m in re.finditer(
                r"([A-Za-z][A-Za-z_ ]*?)\s*:\s*"
                r"(\[[^:]*?\](?=\s*(?:[,\n]|$))|[-+0-9.einfna]+)", text):
            yield (m.group(1).strip().lower().replace("_", " "), m.group(2),
                   at[m.start()])
        for m in re.finditer(r"iter(?:ation)?[ :]+(\d+)", text):
            yield "iteration", m.group(1), at[m.start()]


NUMBER = re.compile(r"[-+]?(?:inf|nan|(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)")


def numbers(t):
    """(value, half a unit of the last digit printed)"""
    out = []
    for m in NUMBER.finditer(t):
        w = m.group(0)
        v = float(w)
        man, _, ex = w.lower().partition("e")
        d = len(man.partition(".")[2])
        out.append((v, 0.5000001 * 10.0 ** (-d + int(ex or 0))
                    if np.isfinite(v) else 0.0))
    return out


def shows(text, want):
    got = numbers(text)
    want = np.ravel(arr(want)).astype(float)
    if len(got) != len(want):
        return False
    for (v, tol), w in zip(got, want):
        if v != w and not (np.isnan(v) and np.isnan(w)) and not (
                abs(v - w) <= tol + 1e-12 * abs(w)):
            return False
    return True


class C30:
    id = "C30"
    runs = {"quick": 2500, "thorough": 40000}
    rule = ("histories of runs, some failing (user functions, output stream, "
            "searches, trainings); every value printed is compared, to the "
            "digits printed, with the evaluation log at the moment it is "
            "printed; non-trivial: at least three values judged")
    real = REAL
    stub = ["standard output (recorded, fails)",
            "the user's functions (recorded, fail)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "ea", "sf", "cons", "mf")
        scn = {"what": what, "np": r.randrange(2 ** 31), "ops": []}
        if what == "ea":
            scn["alg"] = ea.gen_alg(r)
            for _ in range(pick(r, 1, 2, 3)):
                u = ea.gen_run(r)
                u["print"] = True
                if chance(r, 0.25):
                    at = pick(r, "objective", "stdout")
                    u["fault"] = {"at": at, "n": r.randrange(8),
                                  "do": "raise" if at == "objective" else
                                  pick(r, "full", "pipe", "closed")}
                scn["ops"].append(u)
            return scn
        s = bo.gen_session(r, what)
        bo.opt_known(r, s["problem"])
        s["verbose"] = chance(r, 0.75)
        s["opt"].pop("polish", None)
        s["opt"].update(de_maxiter=0, de_popsize=2)
        scn["session"] = s
        for _ in range(pick(r, 1, 2, 3)):
            o = {"iters": pick(r, 1, 2, 3), "tol": pick(
                r, 1e-9, 1e-9, 0.05, 0.5, 1.0)}
            if chance(r, 0.3):
                o["fault"] = bo.gen_bo_fault(r, what)
            scn["ops"].append(o)
        return scn

    @staticmethod
    def run(scn, c):
        c.lib = Lib()
        c.recs = {}
        c.judged = 0
        if scn["what"] == "ea":
            C30.ea(scn, c)
        else:
            C30.bo(scn, c)
        c.nontrivial = c.judged >= 3

    @staticmethod
    def ea(scn, c):
        opt = ea.make(c.lib, scn["alg"])
        for j, u in enumerate(scn["ops"]):
            seams.set_global_state(seams.seed_state(scn["np"] + j))
            obj = Objective(c, u["obj"], u["space"])
            c.printed = Screen(lambda: len(obj.Y))
            c.plan([dict(u["fault"])] if "fault" in u else [])
            try:
                ea.call(opt, obj, u)
            except INJECTED:
                pass
            c.plan([])
            screen, c.printed = c.printed, None
            pop = scn["alg"]["pop"]
            for label, text, n in screen.entries():
                Y = ea.inf_nan(obj.Y[:n])
                best = np.min(Y)
                if label == "optimum" or label == "best y":
                    C30.ok(c, label, text, best, shows(text, best))
                elif label == "best x":
                    C30.ok(c, label, text, best, any(
                        y == best and shows(text, x)
                        for x, y in zip(obj.X[:n], Y)))
                elif label == "iteration":
                    C30.ok(c, label, text, n // pop - 1,
                           int(text) == n // pop - 1)

    @staticmethod
    def ok(c, label, text, want, good):
        c.judged += 1
        c.probe("judged-" + label.replace(" ", "-"))
        need(good, "printed-value-wrong",
             lambda: f"{label}: {text} printed, really {want}")

    @staticmethod
    def bo(scn, c):
        s = scn["session"]
        kind = s["kind"]
        rec = c.recs.setdefault(0, bo.Recorder(c))
        c.printed = Screen(lambda: len(rec.log))
        opt = bo.create(c, s)
        C30.judge(c, s, rec, c.printed, None, 0)
        for o in scn["ops"]:
            c.groups.clear()
            start = len(rec.log)
            c.printed = Screen(lambda: len(rec.log))
            c.plan([dict(o["fault"])] if "fault" in o else [])
            try:
                bo.go(opt, s, o["iters"], o["tol"])
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e):
                    raise
                c.probe("call-failed")
            c.plan([])
            screen, c.printed = c.printed, None
            C30.judge(c, s, rec, screen, opt.problem.optimum, start)

    @staticmethod
    def judge(c, s, rec, screen, known, start):
        kind = s["kind"]
        for label, text, n in screen.entries():
            log = C30.paired(kind, rec.log[:n])
            first = len(C30.paired(kind, rec.log[:start]))
            if not log:
                continue
            X, Y, ids = C30.rows(kind, log)
            best = float(np.min(Y)) if len(Y) else np.inf
            w, x, y = log[-1]
            if label in ("best y", "best objective value"):
                C30.ok(c, label, text, best, shows(text, best))
            elif label in ("best x", "best scheme"):
                if len(Y) and "[" in text:
                    C30.ok(c, label, text, X[np.argmin(Y)], any(
                        b == best and shows(text, a)
                        for a, b in zip(X, Y)))
            elif label == "min index":
                k = numbers(text)
                C30.ok(c, label, text, best, len(k) == 1 and any(
                    i == k[0][0] and b == best for i, b in zip(ids, Y)))
            elif label == "update x":
                C30.ok(c, label, text, x, shows(text, x))
            elif label in ("update obj", "update y"):
                C30.ok(c, label, text, y[:, :1], shows(text, y[:, :1]))
            elif label == "update cons":
                C30.ok(c, label, text, y[:, 1:], shows(text, y[:, 1:]))
            elif label in ("fidelity", "fidelity query order"):
                C30.ok(c, label, text, w, shows(text, w))
            elif label in ("error", "stopping error"):
                err = 1.0 if known is None else abs(best - known) \
                    if known == 0 else abs((best - known) / known)
                C30.ok(c, label, text, err, shows(text, err))
            elif label == "iteration":
                C30.ok(c, label, text, len(log) - first,
                       int(text) == len(log) - first)

    @staticmethod
    def paired(kind, log):
        """completed evaluations"""
        if kind != "cons":
            return [tuple(e) for e in log]
        out = []
        for a, b in zip(log, log[1:]):
            if a[0] == "f" and b[0] == "c":
                out.append(("fc", a[1], np.hstack((a[2], b[2]))))
        return out

    @staticmethod
    def rows(kind, log):
        """points that may be incumbents, their values and row numbers"""
        if kind == "mf":
            log = [e for e in log if e[0] == 0]
        X = np.vstack([e[1] for e in log])
        Y = np.vstack([e[2] for e in log])
        ids = np.arange(len(X))
        if kind == "cons":
            f = np.all(Y[:, 1:] <= 0, axis=1)
            return X[f], Y[f, 0], ids[f]
        return X, Y.ravel(), ids


# --------------------------------------------------------------------------
class C31:
    id = "C31"
    runs = {"quick": 2500, "thorough": 40000}
    rule = ("a sequence of PSO/DE runs, trainings, queries and unseeded "
            "designs, executed from the same state of numpy's stream in two "
            "simulated processes with other entropy, clocks, Python random "
            "states and histories, and from another state; non-trivial: "
            "random numbers were drawn")
    real = REAL
    stub = ["entropy, clock and random states (simulated)",
            "when each scipy search is cut (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        ops = []
        for _ in range(pick(r, 1, 1, 2, 3)):
            ops.append(C31.gen_op(r))
        return {"ops": ops, "np": r.randrange(2 ** 31),
                "other": r.randrange(2 ** 31),
                "ends": chance(r, 0.5),
                "before": [C31.gen_op(r) for _ in range(pick(r, 0, 1, 2))],
                "clocks": [pick(r, "tick", "jump", "frozen"),
                           pick(r, "tick", "jump", "frozen")]}

    @staticmethod
    def gen_op(r):
        what = pick(r, "ea", "ea", "train", "train", "query", "query",
                    "sampler", "bo")
        o = {"what": what}
        if what == "ea":
            o.update(alg=ea.gen_alg(r), run=ea.gen_run(r))
            o["run"]["obj"].pop("noisy", None)
        elif what == "train":
            m = models.gen_model(r)
            m.pop("own", None)
            o.update(m=m, data=models.gen_data(r, m))
        elif what == "query":
            o["kit"] = gen_kit(r)
        elif what == "sampler":
            s = doe.gen_sampler(r)
            while s["kind"] == "FixNumberSampler":
                s = doe.gen_sampler(r)
            o.update(s=s, num=doe.gen_size(r, s), seed=pick(
                r, None, None, doe.gen_seed(r)))
        else:
            o.update(kind=pick(r, "sf", "cons", "mf"))
            o["session"] = bo.gen_session(r, o["kind"])
            o["session"]["opt"].update(de_maxiter=0, de_popsize=2)
            o["session"]["opt"].pop("polish", None)
        return o

    @staticmethod
    def run(scn, c):
        out = []
        for k, start in enumerate((scn["np"], scn["np"], scn["other"])):
            c.lib = Lib()
            c.recs = {}
            c.clock_mode = scn["clocks"][min(k, 1)]
            c.entropy = random.Random(scn["np"] + (k > 0))
            random.seed(scn["np"] + 17 * k)
            quiet_search(c, prng=random.Random(scn["np"] ^ 0x51))
            if k == 1:
                seams.set_global_state(seams.seed_state(scn["other"] ^ 1))
                for o in scn["before"]:
                    try:
                        C31.do(c, o, 100)
                    except (np.linalg.LinAlgError, Invalid):
                        c.probe("linalg-skip")
            quiet_search(c, prng=random.Random(scn["np"] ^ 0x51))
            if scn["ends"]:
                c.opt.update(end_modes=["stall", *seams.NONFINITE])
            seams.set_global_state(seams.seed_state(start))
            got = []
            for j, o in enumerate(scn["ops"]):
                c.groups.clear()
                used = C31.watch(c, o)
                before = seams.get_global_state()
                try:
                    v = C31.do(c, o, j)
                except np.linalg.LinAlgError:
                    raise Invalid("not trainable")
                after = seams.get_global_state()
                got.append((o, v, before, after, used["seeds"]))
                c.opt.pop("on_draw", None)
                c.opt.pop("on_make", None)
            out.append(got)
        a, b, d = out
        c.nontrivial = False
        for j, (x, y, z) in enumerate(zip(a, b, d)):
            o = x[0]
            what = o["what"]
            drew = not same_state(x[2], x[3])
            if what == "sampler":
                C31.fresh(o, x, y, z)
                c.nontrivial |= o["seed"] is None
                continue
            if what == "bo":
                C31.unseeded(x, y)
                c.nontrivial = True
                break
            need(same(x[1], y[1]), "not-reproducible",
                 lambda: f"{what}: {bo_diff(x[1], y[1])}")
            need(same_state(x[3], y[3]), "not-reproducible",
                 f"{what}: another random state afterwards")
            if what == "ea" or (what == "train" and o["m"]["restart"]
                                and not o["m"].get("opt")) or (
                    what == "query" and o["kit"]["acq"]["acq"] != "plan"):
                need(drew, "other-random-source",
                     f"{what} drew nothing from numpy's stream")
            if drew:
                c.nontrivial = True
                c.probe("drew-" + what)
                need(not same_state(x[3], z[3]), "stream-reset",
                     f"{what}: the same state after another start")
            for u, v in zip(x[4], z[4]):
                need(u is None or not same(u, v), "other-random-source",
                     f"{what}: a generator of its own with the seed {u}")
            if what == "ea":
                need(not np.array_equal(x[1][1], z[1][1]),
                     "same-numbers-again", "initial population")
                need(not np.array_equal(x[1][1], x[1][2]),
                     "same-numbers-again", "population of the next run")

    @staticmethod
    def watch(c, o):
        """no state of the stream is used twice; which seeds are used"""
        used = {"states": set(), "seeds": []}
        if o["what"] not in ("ea", "train", "query"):
            return used

        def on_draw(name, before):
            if name in ("seed", "get_state", "set_state"):
                return
            now = seams.get_global_state()
            if same_state(before, now):
                return
            key = (before["state"]["key"].tobytes(), before["state"]["pos"],
                   before["has_gauss"])
            need(key not in used["states"], "stream-rewound",
                 f"{o['what']}: the same random numbers drawn twice")
            used["states"].add(key)

        def on_make(seed):
            used["seeds"].append(
                seed if isinstance(seed, (int, np.integer)) else
                np.array(seed) if isinstance(seed, (list, tuple, np.ndarray))
                else None)
        c.opt["on_draw"] = on_draw
        c.opt["on_make"] = on_make
        c.opt["used"] = used
        return used

    @staticmethod
    def do(c, o, j):
        lib, what = c.lib, o["what"]
        if what == "ea":
            opt = ea.make(lib, o["alg"])
            n = o["alg"]["pop"]
            obj = Objective(c, o["run"]["obj"], o["run"]["space"])
            got = ea.call(opt, obj, o["run"])
            obj2 = Objective(c, o["run"]["obj"], o["run"]["space"])
            got2 = ea.call(opt, obj2, o["run"])
            return [[np.array(obj.X), np.array(obj.Y), snap(got[1:]),
                     np.array(obj2.X), snap(got2[1:])],
                    np.array(obj.X[:n]), np.array(obj2.X[:n])]
        if what == "train":
            m = o["m"]
            D = models.data(m, o["data"])
            log = []
            mod = models.make(lib, m, log)
            mod.train(D[0], D[1])
            return models.predictions(mod, m, models.query_points(3, 2, m))
        if what == "query":
            state = seams.get_global_state()
            kit = Kit(lib, o["kit"]).train(c)
            seams.set_global_state(state)
            used = c.opt.get("used", {"states": set(), "seeds": []})
            used["states"].clear()
            del used["seeds"][:]
            return [kit.do(dict(do="query", s=1, n=1)),
                    kit.do(dict(do="query", s=1, n=1))]
        if what == "sampler":
            smp = doe.make(lib, o["s"])
            two = doe.make(lib, o["s"])
            got = []
            if o["seed"] is not None:
                got.append(snap(doe.request(smp, o["s"], snap(o["num"]),
                                            o["seed"])))
            for q in (smp, smp, two):
                got.append(snap(doe.request(q, o["s"], snap(o["num"]),
                                            None)))
            return got
        s = o["session"]
        s = dict(s, seed_=None)
        out = []
        for k in (0, 1):
            key = 10 * j + k
            rec = c.recs.setdefault(key, bo.Recorder(c))
            search = dict(s, seed_=5)
            bo.search_mode(c, search)
            make = bo.search_mode
            bo.search_mode = lambda *a: None
            try:
                bo.create(c, s, key)
            finally:
                bo.search_mode = make
            out.append(np.array(rec.log[0][1]))
        return out

    @staticmethod
    def fresh(o, x, y, z):
        """unseeded designs are new at every request"""
        all_ = [*x[1], *y[1][-3:], *z[1][-3:]]
        flat = [np.concatenate([np.ravel(v) for v in d]) if isinstance(
            d, list) else np.ravel(d) for d in all_]
        if flat[0].size < 4:
            return
        # y and z have the same entropy
        top = 3 + (o["seed"] is not None)
        for i in range(top):
            for k in range(i):
                need(not np.array_equal(flat[i], flat[k]),
                     "same-numbers-again", f"unseeded designs {k} and {i}")

    @staticmethod
    def unseeded(x, y):
        need(not np.array_equal(x[1][0], x[1][1]), "same-numbers-again",
             "initial designs of two unseeded sessions")


def same_state(a, b):
    return all(same(np.asarray(v), np.asarray(b["state"][k]))
               for k, v in a["state"].items()) and \
        a.get("has_gauss") == b.get("has_gauss")


def bo_diff(a, b):
    from iso import diff
    return diff(a, b)


# --------------------------------------------------------------------------
class C32:
    id = "C32"
    runs = {"quick": 5000, "thorough": 40000}
    rule = ("a history of calls on one component, some failing at seams, "
            "source lines and callbacks; repeated calls must not make the "
            "object grow; then the caller drops everything and all of it "
            "(component, functions, data, results) must be released; "
            "non-trivial: at least three objects watched")
    real = REAL
    stub = ["the user's functions (recorded, fail)",
            "Ctrl-C and allocation failures (injected)",
            "when each scipy search is cut (simulated)"]
    frozen = False

    @staticmethod
    def gen(r, tier, i):
        what = pick(r, "ea", "model", "model", "kit", "sampler", "bo", "bo",
                    "problem")
        scn = {"what": what, "np": r.randrange(2 ** 31), "ops": [],
               "drop": chance(r, 0.3)}
        if what == "ea":
            scn["alg"] = ea.gen_alg(r)
        elif what == "model":
            scn["m"] = models.gen_model(r)
            scn["m"]["restart"] = pick(r, 0, 1)
        elif what == "kit":
            scn["kit"] = gen_kit(r)
        elif what == "sampler":
            scn["s"] = doe.gen_sampler(r)
        elif what == "bo":
            kind = pick(r, "sf", "cons", "mf")
            s = bo.gen_session(r, kind)
            s["opt"].pop("polish", None)
            s["opt"].update(de_maxiter=0, de_popsize=2)
            scn["session"] = s
        for _ in range(pick(r, 1, 2, 3)):
            o = C32.gen_op(r, scn)
            if chance(r, 0.5) and what != "problem":
                at = pick(r, *{"ea": ["objective", "rng"], "sampler": ["rng"],
                               "model": ["minimize", "nll", "linalg", "rng"],
                               "kit": ["de", "acq", "linalg"],
                               "bo": ["objective", "nll", "linalg", "acq",
                                      "stdout"]}[what])
                o["fault"] = {"at": at, "n": pick(r, 0, 1, 3, 9, 30),
                              "do": {"rng": "interrupt", "stdout": "full",
                                     "objective": "raise"}.get(at) or pick(
                                         r, "interrupt", "memory")}
                if what != "bo" and chance(r, 0.3):
                    o["line"] = pick(r, 3, 30, 300, 3000) + r.randrange(30)
            scn["ops"].append(o)
        scn["repeat"] = C32.gen_op(r, scn)
        if chance(r, 0.5):
            q = [o["fault"] for o in scn["ops"]
                 if "fault" in o and "line" not in o]
            if q:
                scn["repeat"]["fault"] = pick(r, *q)
        elif what == "model" and chance(r, 0.5):
            scn["repeat"]["bad"] = pick(r, float("nan"), float("inf"),
                                        "level", "text")
        return scn

    @staticmethod
    def gen_op(r, scn):
        w = scn["what"]
        if w == "ea":
            u = ea.gen_run(r)
            u["obj"].pop("noisy", None)
            return {"run": u, "save": chance(r, 0.3)}
        if w == "model":
            return {"data": models.gen_data(r, scn["m"]),
                    "s": r.randrange(2 ** 31), "n": pick(r, 1, 2, 4)}
        if w == "kit":
            return {"q": gen_query(r)}
        if w == "sampler":
            return {"num": doe.gen_size(r, scn["s"]),
                    "s": pick(r, None, doe.gen_seed(r)),
                    "save": chance(r, 0.3)}
        if w == "bo":
            return {"iters": pick(r, 1, 2)}
        import iso
        q = iso.g_problem(r)
        return {"q": q}

    @staticmethod
    def run(scn, c):
        if not C32.frozen:
            gc.collect()
            gc.freeze()
            C32.frozen = True
        c.lib = Lib()
        c.recs = {}
        quiet_search(c, prng=random.Random(scn["np"]))
        seams.set_global_state(seams.seed_state(scn["np"]))
        refs = []
        C32.live(scn, c, refs)
        c.recs.clear()
        del c.records[:]
        c.groups.clear()
        c.plan([])
        for k in ("on_search", "owner"):
            c.opt.pop(k, None)
        gc.collect()
        left = [n for n, w in refs if w() is not None]
        c.nontrivial = len(refs) >= 3
        c.log("watched", len(refs))
        for n, _ in refs:
            c.probe("watched-" + n)
        need(not left, "not-released", lambda: f"{scn['what']}: {left}, "
             f"{C32.holders(refs)}")

    @staticmethod
    def holders(refs):
        for n, w in refs:
            o = w()
            if o is not None:
                return [type(h).__name__ for h in gc.get_referrers(o)][:5]
        return []

    @staticmethod
    def watch(refs, name, v):
        """everything in v that can be watched"""
        if isinstance(v, (list, tuple)):
            for e in v:
                C32.watch(refs, name, e)
        elif isinstance(v, dict):
            for e in v.values():
                C32.watch(refs, name, e)
        elif isinstance(v, np.ndarray) or hasattr(v, "__weakref__"):
            try:
                refs.append((name, weakref.ref(v)))
            except TypeError:
                pass

    @staticmethod
    def live(scn, c, refs):
        """the caller's life with the component"""
        obj, own = C32.build(scn, c)
        C32.watch(refs, "component", obj)
        C32.watch(refs, "settings", own)
        for o in scn["ops"]:
            c.groups.clear()
            if o.get("line") is None:
                c.plan([dict(o["fault"])] if "fault" in o else [])
            try:
                if o.get("line") is not None:
                    from core import interrupt_at_line
                    with interrupt_at_line(o["line"]):
                        C32.act(scn, c, obj, o, refs)
                else:
                    C32.act(scn, c, obj, o, refs)
                c.probe("call-completed")
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e):
                    raise
                c.probe("call-failed")
            c.plan([])
        if scn["what"] not in ("bo", "problem"):
            C32.repeat(scn, c, obj)

    @staticmethod
    def repeat(scn, c, obj):
        """the same call again and again does not make the object grow"""
        o = scn["repeat"]
        size = []
        for k in range(6):
            seams.set_global_state(seams.seed_state(scn["np"]))
            c.opt["prng"] = random.Random(scn["np"])
            c.groups.clear()
            c.plan([dict(o["fault"])] if "fault" in o else [])
            try:
                C32.act(scn, c, obj, o, [])
                if "bad" in o:
                    c.probe("bad-data-accepted")
            except BaseException as e:      # noqa: BLE001
                if not bo.is_failure(e) and "bad" not in o:
                    raise
                c.probe("repeated-failure")
            c.plan([])
            size.append(C32.weight(obj))
        c.probe("repeated")
        need(size[5] <= size[2] + 64, "object-grows",
             f"{scn['what']}: bytes after each of six equal calls {size}")

    @staticmethod
    def weight(obj):
        skip = Objective.__getstate__
        Objective.__getstate__ = lambda self: {}
        # what the caller's own functions remember does not count
        models.Proxy.__getstate__ = lambda self: {"inner": self.inner}
        models._Logged.__getstate__ = lambda self: {"func": self.func}
        try:
            return len(util.dumps(obj, 4))
        except Violation:               # cannot be measured
            raise Invalid("not picklable") from None
        finally:
            Objective.__getstate__ = skip
            del models.Proxy.__getstate__, models._Logged.__getstate__

    @staticmethod
    def build(scn, c):
        w, lib = scn["what"], c.lib
        if w == "ea":
            return ea.make(lib, scn["alg"]), []
        if w == "model":
            sp = np.array(scn["m"]["space"], dtype=float)
            return models.make(lib, scn["m"], space=sp), [sp]
        if w == "kit":
            k = Kit(lib, scn["kit"]).train(c)
            return k, [k.acq, k.mods, k.D]
        if w == "sampler":
            keep = {}
            return doe.make(lib, scn["s"], keep), [keep["space"]]
        if w == "problem":
            return [], []
        s = scn["session"]
        acq = bo.make_acq(lib, s["acq"])
        prob = bo.make_problem(s["problem"], 0)
        return bo.create(c, s, acq=acq, prob=prob), [acq, prob]

    @staticmethod
    def spoil(D, bad):
        """responses nobody can train with"""
        X, Y = D
        low = Y[1] if isinstance(Y, list) else Y
        if bad == "text":
            low = np.full(np.shape(low), "x")
        elif bad == "level":
            low = np.zeros((0, 1))
        else:
            low = np.array(low, dtype=float)
            low.flat[0] = bad
        return X, [Y[0], low] if isinstance(Y, list) else low

    @staticmethod
    def act(scn, c, obj, o, refs):
        w = scn["what"]
        if w == "ea":
            f = Objective(c, o["run"]["obj"], o["run"]["space"])
            sp = ea.space_of(o["run"])
            C32.watch(refs, "objective", [f, sp])
            k = {"save_step_results": True} if o.get("save") else {}
            C32.watch(refs, "results", ea.call(obj, f, o["run"], space=sp,
                                               **k))
            if len(refs) > 400:
                del refs[400:]
        elif w == "model":
            D = snap(models.data(scn["m"], o["data"]))
            if "bad" in o:
                D = C32.spoil(D, o["bad"])
            C32.watch(refs, "data", D)
            obj.train(D[0], D[1])
            P = models.query_points(o["s"], o["n"], scn["m"])
            C32.watch(refs, "query points", P)
            C32.watch(refs, "prediction", obj.predict(P, return_std=True))
        elif w == "kit":
            C32.watch(refs, "answer", obj.do(o["q"]))
        elif w == "sampler":
            num = snap(o["num"])
            C32.watch(refs, "design", doe.request(obj, scn["s"], num,
                                                  o["s"]))
            if o.get("save"):
                obj.save_data("kept")
        elif w == "bo":
            got = bo.go(obj, scn["session"], o["iters"], 1e-12)
            C32.watch(refs, "result", got)
            C32.watch(refs, "surrogates", [
                getattr(obj, n, None) for n in (
                    "surrogate", "obj_surrogate", "cons_surrogates")])
        else:
            for q in o["q"]["ops"]:
                k = {} if q["dim"] is None else {"num_dim": q["dim"]}
                p = getattr(getattr(c.lib, o["q"]["fam"]), q["name"])(**k)
                dom = arr(p.input_domain)
                X = dom[:, 0] + 0.4 * (dom[:, 1] - dom[:, 0])
                X = np.vstack((X, X))
                C32.watch(refs, "problem", [p, X])
                if o["q"]["fam"] == "pmf":
                    C32.watch(refs, "value", [p.hf(X), p.lf(X)])
                else:
                    C32.watch(refs, "value", p.f(X))


PROPS = [C30, C31, C32]
