"""C06-C08: designs of experiment."""
import io
import os
import pickle
import random

import numpy as np

import seams
from core import INJECTED, Lib, Scheduler, Violation, interrupt_at_line
from util import (arr, chance, gen_space, in_space, need, pick, same, snap)

REAL = ["mfpml.design_of_experiment (all samplers)", "scipy.stats.qmc",
        "numpy", "pickle"]

SF = ["LatinHyperCube", "RandomSampler", "SobolSequence", "FixNumberSampler"]
MF = ["MFLatinHyperCube", "MFSobolSequence"]


def gen_sampler(r, mf=None):
    d = pick(r, 1, 1, 2, 2, 3, 4, 5, 8)
    if mf is None:
        mf = chance(r, 0.5)
    if not mf:
        s = {"kind": pick(r, "LatinHyperCube", "LatinHyperCube",
                          "RandomSampler", "SobolSequence", "SobolSequence",
                          "FixNumberSampler"),
             "space": gen_space(r, d), "as": pick(r, "array", "list")}
        if s["kind"] == "SobolSequence" and chance(r, 0.5):
            s["skip"] = pick(r, 0, 1, 2, 3, 7, 8, 64, 100)
        if s["kind"] == "FixNumberSampler":
            s["as"] = "array"
            w = pick(r, 1, 2, 3)
            s["space"] = [[round(r.uniform(-3, 3), 2) for _ in range(w)]
                          for _ in range(pick(r, 1, 1, 2))]
        return s
    k = pick(r, 1, 2, 2, 2, 3, 3, 4)
    s = {"kind": pick(r, *MF), "levels": k, "nested": chance(r, 0.5),
         "as": pick(r, "array", "list")}
    sp = gen_space(r, d)
    s["spaces"] = [sp for _ in range(k)]
    if s["as"] == "list" and not s["nested"]:
        s["spaces"] = [gen_space(r, d) for _ in range(k)]
    if s["kind"] == "MFSobolSequence" and chance(r, 0.5):
        s["skip"] = pick(r, 0, 1, 2, 3, 7, 8, 64, 100)
    return s


def is_mf(s):
    return s["kind"] in MF


def make(lib, s, keep=None):
    """keep receives the design space as it was handed over"""
    cls = getattr(lib, s["kind"])
    kw = {"num_skip": s["skip"]} if "skip" in s else {}
    keep = {} if keep is None else keep
    if not is_mf(s):
        keep["space"] = sp = np.array(s["space"]) if s["as"] == "array" \
            else snap(s["space"])
        return cls(design_space=sp, **kw)
    if s["as"] == "array":
        keep["space"] = sp = np.array(s["spaces"][0])
        return cls(design_space=sp, num_fidelity=s["levels"],
                   nested=s["nested"], **kw)
    keep["space"] = sp = [np.array(x) for x in s["spaces"]]
    return cls(design_space=sp, nested=s["nested"], **kw)


def gen_size(r, s):
    big = chance(r, 0.08)

    def one():
        return pick(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 21,
                    25, 31, 32, 33, 50, 64) if not big else \
            pick(r, 100, 128, 200, 257, 500, 1000)
    if not is_mf(s):
        return one()
    n = sorted(one() for _ in range(s["levels"]))
    if chance(r, 0.15):
        n = [n[-1]] * len(n)
    return n


def gen_seed(r):
    return pick(r, 0, 1, 2, 42, 123456, 1996, r.randrange(2 ** 16),
                r.randrange(2 ** 31))


def request(smp, s, num, seed):
    if num is not None and not isinstance(num, list) and False:
        pass
    return smp.get_samples(num_samples=num, seed=seed)


def current(smp, s):
    return smp.data if is_mf(s) else smp.samples


class C07:
    id = "C07"
    runs = {"quick": 8000, "thorough": 150000}
    rule = ("a history of seeded requests to several samplers in one process "
            "with foreign draws from and reseeding of the global stream in "
            "between, or in threads interleaved at random-number calls or "
            "source lines; every design is compared with the one a new "
            "process returns; non-trivial: at least two requests")
    real = REAL
    stub = ["global random state (driven by the simulator)",
            "entropy source (seeded)", "thread scheduling (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        samplers = [gen_sampler(r) for _ in range(pick(r, 1, 2, 2, 3))]
        if chance(r, 0.3):
            samplers.append(dict(samplers[0]))      # same settings twice
        ops = []
        for _ in range(pick(r, 2, 3, 4, 6, 8)):
            k = r.randrange(len(samplers))
            if chance(r, 0.25):
                ops.append({"do": pick(r, "draw", "seed", "pydraw", "choice"),
                            "n": r.randrange(1, 1000)})
            if ops and chance(r, 0.3):
                old = [o for o in ops if o["do"] == "get"]
                if old:
                    o = dict(pick(r, *old))
                    ops.append(o)
                    continue
            ops.append({"do": "get", "k": k, "num": gen_size(r, samplers[k]),
                        "s": gen_seed(r)})
        scn = {"samplers": samplers, "ops": ops,
               "mode": pick(r, "seq", "seq", "threads")}
        if scn["mode"] == "threads":
            scn["lines"] = chance(r, 0.6)
            scn["slices"] = [[r.randrange(3), pick(r, 1, 1, 2, 3, 5, 9, 20)]
                             for _ in range(pick(r, 5, 20, 60))]
            scn["draws"] = [pick(r, "random", "normal", "choice", "uniform",
                                 "seed") for _ in range(pick(r, 3, 8, 20))]
        return scn

    @staticmethod
    def baseline(c, scn):
        out = {}
        for o in scn["ops"]:
            if o["do"] != "get":
                continue
            key = (o["k"], str(o["num"]), o["s"])
            if key in out:
                continue
            s = scn["samplers"][o["k"]]
            seams.set_global_state(seams.seed_state(777))
            c.entropy = random.Random(1)
            out[key] = snap(request(make(Lib(), s), s, snap(o["num"]),
                                    o["s"]))
        return out

    @staticmethod
    def run(scn, c):
        base = C07.baseline(c, scn)
        c.entropy = random.Random(int(scn["entropy"]) ^ 0xE47)
        lib = Lib()
        seams.reset_process_state(int(scn["ambient"]))
        if scn["mode"] == "threads":
            return C07.threads(scn, c, lib, base)
        smp = [make(lib, s) for s in scn["samplers"]]
        kept = []
        n = 0
        for j, o in enumerate(scn["ops"]):
            if o["do"] != "get":
                C07.foreign(o)
                c.fired["foreign-" + o["do"]] += 1
                continue
            s = scn["samplers"][o["k"]]
            before = np.random.mtrand.get_state(legacy=False) \
                if False else seams.get_global_state()
            pyb = random.getstate()
            got = request(smp[o["k"]], s, snap(o["num"]), o["s"])
            C07.judge(c, base, o, got, s, j)
            need(_same_state(before, seams.get_global_state()),
                 "global-stream-touched", f"request {j}: {s['kind']}")
            need(pyb == random.getstate(), "global-stream-touched",
                 f"python random, request {j}")
            kept.append((j, got, snap(got)))
            n += 1
        for j, g, was in kept:
            need(same(g, was), "earlier-design-changed", f"request {j}")
        c.nontrivial = n >= 2

    @staticmethod
    def foreign(o):
        if o["do"] == "draw":
            np.random.random(o["n"])
        elif o["do"] == "seed":
            np.random.seed(o["n"])
        elif o["do"] == "choice":
            np.random.permutation(o["n"])
        else:
            random.random()

    @staticmethod
    def judge(c, base, o, got, s, j):
        ref = base[(o["k"], str(o["num"]), o["s"])]
        c.log("design", s["kind"], [arr(g) for g in got] if is_mf(s)
              else arr(got))
        need(same(got, ref), "design-depends-on-more-than-seed",
             lambda: f"request {j}: {s['kind']} num={o['num']} seed={o['s']}")

    @staticmethod
    def threads(scn, c, lib, base):
        gets = [o for o in scn["ops"] if o["do"] == "get"]
        a, b = gets[0::2], gets[1::2]

        def client(ops):
            def body():
                smp = {}
                for o in ops:
                    k = o["k"]
                    s = scn["samplers"][k]
                    if k not in smp:
                        smp[k] = make(lib, s)
                    got = request(smp[k], s, snap(o["num"]), o["s"])
                    C07.judge(c, base, o, got, s, "in a thread")
                return len(ops)
            return body

        def drawer():
            out = []
            np.random.seed(5)
            for d in scn["draws"]:
                if d == "seed":
                    np.random.seed(11)
                elif d == "choice":
                    out.append(np.random.choice(50, 5))
                else:
                    out.append(getattr(np.random, d)(size=3))
            return out
        c.enabled = False
        seams.set_global_state(seams.seed_state(3))
        expected = drawer()
        c.enabled = True
        seams.set_global_state(seams.seed_state(4))
        sch = c.sched = Scheduler(c, scn["slices"], swap_rng=False,
                                  trace_lines=scn["lines"])
        res, errs = sch.run([client(a), client(b), drawer])
        c.sched = None
        c.sched_switches = sch.switches
        for i in sorted(errs):
            raise errs[i]
        need(same(res[2], expected), "global-stream-touched",
             "draws of another thread changed")
        c.nontrivial = sch.switches > 0


def _same_state(a, b):
    return same(a["state"]["key"], b["state"]["key"]) and \
        a["state"]["pos"] == b["state"]["pos"] and \
        a["has_gauss"] == b["has_gauss"] and a["gauss"] == b["gauss"]


# --------------------------------------------------------------------------
class C08:
    id = "C08"
    runs = {"quick": 14000, "thorough": 400000}
    rule = ("a history of requests (sizes, seeds incl. unseeded with "
            "simulated entropy, the same size list object passed again) on "
            "one sampler; every returned design is checked for size, domain, "
            "stratification and nesting; non-trivial: every run")
    real = REAL
    stub = ["entropy source (seeded)", "global random state (seeded)"]

    @staticmethod
    def gen(r, tier, i):
        s = gen_sampler(r)
        ops = []
        for _ in range(pick(r, 1, 2, 3, 4)):
            ops.append({"num": gen_size(r, s),
                        "s": None if chance(r, 0.12) else gen_seed(r)})
        for o in ops[1:]:
            if chance(r, 0.4):
                o["again"] = True       # pass the previous list object
        return {"sampler": s, "ops": ops,
                "npint": chance(r, 0.1)}

    @staticmethod
    def run(scn, c):
        lib = Lib()
        s = scn["sampler"]
        smp = make(lib, s)
        lst = None
        want = None
        for j, o in enumerate(scn["ops"]):
            if not (o.get("again") and lst is not None):
                lst = snap(o["num"])
                want = snap(o["num"])
                if scn.get("npint") and not is_mf(s):
                    lst = np.int64(lst)
            got = request(smp, s, lst, o["s"])
            c.log("design", s["kind"], [arr(g) for g in got] if is_mf(s)
                  else arr(got))
            need(same(got, current(smp, s)), "attribute-differs",
                 f"request {j}")
            C08.check(s, want, got, j)

    @staticmethod
    def check(s, num, got, j):
        if not is_mf(s):
            g = arr(got)
            if s["kind"] == "FixNumberSampler":
                need(g.shape == (num, arr(s["space"]).size), "size",
                     f"request {j}: {g.shape}")
                need(np.array_equal(g, np.tile(arr(s["space"]).ravel(),
                                               (num, 1))),
                     "outside-design-space", "fixed values differ")
                return
            sp = arr(s["space"])
            need(g.shape == (num, len(sp)), "size",
                 f"request {j}: {g.shape}, asked {num}")
            need(in_space(g, sp), "outside-design-space", f"request {j}")
            if s["kind"] == "LatinHyperCube":
                lhs(g, sp, f"request {j}")
            return
        need(isinstance(got, list) and len(got) == s["levels"], "size",
             f"{len(got)} levels")
        for k in range(s["levels"]):
            g = arr(got[k])
            sp = arr(s["spaces"][k])
            need(g.shape == (num[k], len(sp)), "size",
                 f"request {j} level {k}: {g.shape}, asked {num[k]}")
            need(in_space(g, sp), "outside-design-space",
                 f"request {j} level {k}")
            if s["kind"] == "MFLatinHyperCube" and (
                    not s["nested"] or k == s["levels"] - 1):
                lhs(g, sp, f"request {j} level {k}")
        if s["nested"]:
            for k in range(s["levels"] - 1):
                low = {tuple(x) for x in arr(got[k + 1]).tolist()}
                hi = [tuple(x) for x in arr(got[k]).tolist()]
                need(all(x in low for x in hi), "not-nested",
                     f"request {j} level {k}")
                need(len(set(hi)) == len(hi), "repeated-points",
                     f"request {j} level {k}")


def lhs(g, sp, where):
    n = g.shape[0]
    w = sp[:, 1] - sp[:, 0]
    u = (g - sp[:, 0]) / w
    eps = 1e-12 + 8 * np.finfo(float).eps * np.max(np.abs(sp), axis=1) / w
    k = np.arange(n)[:, None]
    v = np.sort(u, axis=0)
    ok = (v >= k / n - eps) & (v <= (k + 1) / n + eps)
    need(bool(np.all(ok)), "not-latin",
         lambda: f"{where}: a slice holds no or several points")


# --------------------------------------------------------------------------
class C06:
    id = "C06"
    runs = {"quick": 12000, "thorough": 400000}
    rule = ("samplers in one or two interleaved sessions generate and save "
            "designs under new and used names on a simulated disk with "
            "short, failing and full-disk writes and failing opens; "
            "non-trivial: at least one save returned normally or failed by "
            "an injected fault")
    real = REAL + ["io.BufferedWriter"]
    stub = ["disk (simulated faults over a scratch directory)",
            "thread scheduling (simulated)"]

    @staticmethod
    def gen(r, tier, i):
        sess = []
        for q in range(pick(r, 1, 1, 2)):
            samplers = [gen_sampler(r) for _ in range(pick(r, 1, 1, 2))]
            ops = []
            names = [f"{n}{q}" for n in ("data", "d.v", "sub/x", "data")]
            for k in range(len(samplers)):
                ops.append({"do": "get", "k": k, "s": gen_seed(r),
                            "num": gen_size(r, samplers[k])})
            for _ in range(pick(r, 1, 2, 3, 5)):
                k = r.randrange(len(samplers))
                if chance(r, 0.35):
                    ops.append({"do": "get", "k": k, "s": gen_seed(r),
                                "num": gen_size(r, samplers[k])})
                if chance(r, 0.2):          # a request that fails half-way
                    ops.append({"do": "get", "k": k, "s": gen_seed(r),
                                "num": gen_size(r, samplers[k]),
                                "line": r.randrange(0, 60)})
                ops.append({"do": "save", "k": k, "name": pick(r, *names)})
            sess.append({"samplers": samplers, "ops": ops})
        faults = []
        for _ in range(pick(r, 0, 1, 1, 2)):
            kind = pick(r, "write", "write", "open", "close", "write",
                        "replace", "rename", "fsync")
            do = {"write": pick(r, "short", "short", "eio", "enospc", "full"),
                  "open": pick(r, "eacces", "enospc", "eio")}.get(
                      kind, pick(r, "eio", "enospc"))
            faults.append({"at": "io:" + kind, "n": pick(r, 0, 0, 1, 2, 3),
                           "do": do, "frac": pick(r, 0.0, 0.3, 0.6, 0.95),
                           "bytes": pick(r, 0, 10, 200, 2000)})
        scn = {"sessions": sess, "faults": faults,
               "bufsize": pick(r, 8192, 64)}
        if len(sess) == 2:
            scn["slices"] = [[r.randrange(2), pick(r, 1, 1, 2, 3, 5)]
                             for _ in range(pick(r, 5, 20, 40))]
            scn["lines"] = chance(r, 0.5)
        return scn

    @staticmethod
    def run(scn, c):
        import disk as dk
        lib = Lib()
        os.makedirs(os.path.join(c.scratch, "sub"), exist_ok=True)
        d = c.disk = dk.Disk(c, c.scratch)
        d.names = {os.path.basename(o["name"]) + ".pickle"
                   for q in scn["sessions"] for o in q["ops"] if "name" in o}
        c.opt["bufsize"] = scn["bufsize"]
        c.plan(scn["faults"])
        c.nontrivial = False
        bodies = [C06.session(lib, c, d, q) for q in scn["sessions"]]
        if len(bodies) == 1:
            bodies[0]()
        else:
            sch = c.sched = Scheduler(
                c, scn.get("slices", []), swap_rng=True,
                trace_lines=scn.get("lines", False))
            res, errs = sch.run(bodies, [seams.seed_state(k)
                                         for k in range(len(bodies))])
            c.sched = None
            c.sched_switches = sch.switches
            for k in sorted(errs):
                raise errs[k]

    @staticmethod
    def session(lib, c, d, q):
        def body():
            smp = [make(lib, s) for s in q["samplers"]]
            last = {}
            for o in q["ops"]:
                k = o["k"]
                s = q["samplers"][k]
                if o["do"] == "get" and "line" in o and c.sched is None:
                    try:
                        with interrupt_at_line(o["line"]):
                            last[k] = [snap(request(smp[k], s, snap(
                                o["num"]), o["s"]))]
                    except INJECTED:
                        c.probe("request-failed")
                        # the interrupt may have come after the assignment
                        if k in last:
                            last[k] = last[k] + [snap(request(
                                make(lib, s), s, snap(o["num"]), o["s"]))]
                    continue
                if o["do"] == "get":
                    last[k] = [snap(request(smp[k], s, snap(o["num"]),
                                            o["s"]))]
                    continue
                if k not in last:
                    continue
                saves(c, d, smp[k], s, o["name"], last[k])
            return True
        return body


def saves(c, d, smp, s, name, want):
    before = sum(c.fired.values())
    try:
        smp.save_data(file_name=name)
        ok = True
    except OSError:
        ok = False
        if sum(c.fired.values()) == before and d.capacity is None \
                and c.sched is None:
            raise
    c.nontrivial = True
    c.log("save", name, ok)
    c.probe("save-ok" if ok else "save-failed")
    now = snap(current(smp, s))
    need(any(same(now, w) for w in want), "saving-changed-the-design", name)
    if not ok:
        return
    path = os.path.join(c.scratch, name + ".pickle")
    import disk as dk
    try:
        with dk.R["open"](path, "rb") as f:
            data = f.read()
        b = io.BytesIO(data)
        got = pickle.load(b)
    except FileNotFoundError:
        raise Violation("save-lost", f"{name}: no file")
    except Exception as e:
        raise Violation("save-unreadable", f"{name}: {type(e).__name__} {e}")
    need(same(got, now), "save-differs", lambda: f"{name}: read back "
         f"{str(got)[:120]}, design {str(now)[:120]}")
    need(b.read() == b"", "save-trailing-garbage", name)


PROPS = [C06, C07, C08]
