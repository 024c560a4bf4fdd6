"""P29 compiled kernels: memory bounds, schedules, thread settings."""
import os
import pickle
import signal
import subprocess
import sys
import threading

import numpy as np

import graphicle as gcl
import numba as nb

from . import core, gens, p29_work as work

RULE = (
    "a case is one fixed workload over all compiled routines executed under an instrumented process (guard pages and fill "
    "patterns, bounds checks, uncompiled, other threading layers), or one call observed under varying threads, callers, "
    "faults and surroundings; results are compared with the plain run; distinct by inputs"
)
ASSUMPTIONS = [
    "guard pages catch accesses past either end of blocks the size of a multiple of 16 bytes immediately, and writes into "
    "the up to 15 bytes of slack when the block is freed; reads of slack show as results differing between fills",
    "concurrent callers are only exercised where numba runs a thread-safe threading layer (tbb or omp)",
    "thrust and spherocity optimise over kinks, so compiled and uncompiled runs are only compared for being in range",
]
REQUIRED = {"child:guard-after": 1, "child:guard-before": 1, "child:bounds-check": 1, "child:uncompiled": 1,
            "child:single-worker": 1, "child:oversubscribed": 1, "guarded-allocations": 5000, "swept-sizes": 300, "wide-sizes": 8, "compared": 1500,
            "thread-counts": 200, "concurrent-calls": 1000, "setting-after-failure": 20, "setting-after-call": 200,
            "canary": 60, "kept-arrays": 60}
WORK = os.environ.get("MON_WORK", "/tmp")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXT = nb.config.NUMBA_NUM_THREADS


class Child:
    def __init__(self, name, args, env=(), own_cache=False, tol=0.0):
        self.name, self.tol = name, tol
        self.out = os.path.join(WORK, "p29-" + name)
        e = dict(os.environ)
        e.pop("LD_PRELOAD", None)
        e.update(env)
        if own_cache:
            e["NUMBA_CACHE_DIR"] = os.path.join(WORK, "numba-" + name)
            os.makedirs(e["NUMBA_CACHE_DIR"], exist_ok=True)
        self.log = open(self.out + ".log", "w")
        self.p = subprocess.Popen([sys.executable, "-X", "faulthandler", "-m", "mon.p29_work", self.out, *args], cwd=HERE, env=e,
                                  stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)

    def result(self, limit=200):
        try:
            rc = self.p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise core.Inconclusive(f"{self.name} took over {limit} s")
        self.log.close()
        at = "start"
        try:
            at = open(self.out + ".progress").read().strip() or at
        except OSError:
            pass
        text = open(self.out + ".log", errors="replace").read()
        if rc < 0:
            if -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE) and at != "start":
                raise core.Violation(f"{self.name}: process died with signal {-rc} during {at}: {core.short(text[-900:], 900)}")
            raise core.Inconclusive(f"{self.name}: ended by signal {-rc} at {at}")
        if rc:
            raise core.Inconclusive(f"{self.name}: exit {rc} at {at}: {text[-800:]}")
        return pickle.load(open(self.out, "rb"))


def build_guard():
    so = os.path.join(WORK, "guard.so")
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", so, os.path.join(HERE, "native", "guard.c")],
                       capture_output=True, text=True, env=dict(os.environ, PATH=os.environ["PATH"] + ":/usr/bin:/bin"))
    if r.returncode:
        raise core.Inconclusive("guard.c: " + r.stderr[-500:])
    return so


_children = {}


def start(seed, names=None):
    if _children:
        return _children
    g = build_guard()
    s = ["--seed", str(seed), "--threads", "8"]
    r = ["--rounds", "3"]
    w = ["--sweep"]
    spec = {
        "bounds-check": lambda: Child("bounds-check", s + r + w, {"NUMBA_BOUNDSCHECK": "1"}, own_cache=True, tol=1e-9),
        "uncompiled": lambda: Child("uncompiled", s + ["--small", "--rounds", "2"], {"NUMBA_DISABLE_JIT": "1"}, own_cache=True, tol=1e-9),
        "guard-after": lambda: Child("guard-after", s + r + w + ["--guard", "1,165"], {"LD_PRELOAD": g}),
        "guard-before": lambda: Child("guard-before", s + r + ["--guard", "2,63"], {"LD_PRELOAD": g}),
        "single-worker": lambda: Child("single-worker", ["--seed", str(seed), "--threads", "1"] + r, {"NUMBA_NUM_THREADS": "1"}),
        "oversubscribed": lambda: Child("oversubscribed", s + r + ["--cpus", "2"], {"NUMBA_NUM_THREADS": "24"}),
    }
    for k, make in spec.items():
        if names is None or k in names:
            _children[k] = make()
    return _children


ORDER = ("guard-after", "guard-before", "single-worker", "oversubscribed", "uncompiled", "bounds-check")


def agree(mon, name, tol, got, want):
    mon.check([l for l, _ in got] == [l for l, _ in want], f"{name}: the same calls were made")
    for (label, a), (_, b) in zip(got, want):
        if isinstance(b, str):
            mon.fail(f"plain run: {label} raised {b}")
        if isinstance(a, str):
            mon.fail(f"{name}: {label} raised {a}")
        mon.check(len(a) == len(b), f"{name}: {label}: number of results")
        op = label.split(":")[0]
        for i, (u, v) in enumerate(zip(a, b)):
            what = f"{name}: {label} result {i} against the plain run"
            if name == "uncompiled" and op in work.OPTIM:
                if i == 0:
                    mon.check(-1e-9 <= float(u) <= 1 + 1e-9 or op == "spherocity", what + ": in range", got=u)
            elif tol and u.dtype.kind == "f" and op in work.OPTIM:
                mon.check(np.shape(u) == np.shape(v), what)
            elif tol and u.dtype.kind == "f":
                mon.close(u, v, what, rtol=tol, atol=tol * max(1.0, float(np.nanmax(np.abs(v[np.isfinite(v)]), initial=0.0))))
            else:
                mon.same(u, v, what)
            mon.check(u.dtype == v.dtype, what + ": dtype", got=u.dtype, want=v.dtype)
        mon.obs("compared", len(a))


def instrumented(mon, rng, i):
    """i selects a child; all of them run side by side"""
    name = ORDER[i]
    kids = start(mon.seed, None if mon.only is None else [name])
    child = kids[name]
    rounds, facts = child.result()
    for r, got in enumerate(rounds):
        if r == 3:
            want = work.run(mon.seed + 777, work.SWEEP, 8, None, work.SWEEP_SKIP)
            mon.obs("swept-sizes", len(work.SWEEP))
        elif r == 4:
            want = work.run(mon.seed + 778, work.WIDE, 8, None, work.WIDE_SKIP)
            mon.obs("wide-sizes", len(work.WIDE))
        else:
            want = work.run(mon.seed + r, work.SMALL if name == "uncompiled" else work.SIZES + work.BIG, 1 if name == "single-worker" else 8)
        agree(mon, name, child.tol, got, want)
        mon.sig(name, r)
    mon.obs("child:" + name)
    mon.state("threading-layer", facts["layer"])
    mon.state("workers", facts["workers"])
    mon.obs("guarded-allocations", facts.get("total", 0))
    mon.sample(f"{name}: {sum(len(r) for r in rounds)} calls, {facts}")


def kernel_calls(p, q, pseudo):
    """label, function of the thread count"""
    return [
        ("delta_R", lambda t: p.delta_R(q, pseudo, t)),
        ("delta_R self", lambda t: p.delta_R(p, pseudo, t)),
        ("cluster_coeff_distbn", lambda t: gcl.calculate.cluster_coeff_distbn(p, 0.8, pseudo, t)),
        ("arg_closest", lambda t: gcl.select.arg_closest(q, p, t)),
    ]


def thread_counts(mon, rng, i):
    n = int(rng.choice([4, 5, 9, 40, 120, 257]))
    m = int(rng.integers(1, min(n, 12)))
    p = gcl.MomentumArray(gens.momenta(rng, n, "jets"))
    q = gcl.MomentumArray(gens.momenta(rng, m, "collider"))
    pseudo = bool(rng.integers(2))
    before = int(rng.integers(1, MAXT + 1))
    nb.set_num_threads(before)
    for label, fn in kernel_calls(p, q, pseudo):
        ref = np.array(mon.call(label, fn, 1))
        for t in rng.permutation(np.arange(1, MAXT + 1))[:4]:
            got = np.array(mon.call(label, fn, int(t)))
            mon.same(got, ref, f"{label} with {t} threads against one", n=n, m=m)
            mon.check(nb.get_num_threads() == before, f"worker thread setting after {label}", before=before, after=nb.get_num_threads(), threads=t)
            mon.obs("thread-counts")
            mon.obs("setting-after-call")
            mon.state("thread-count", int(t))
    nb.set_num_threads(MAXT)
    mon.sig(np.asarray(p.data), pseudo)


def failing(mon, rng, i):
    """the setting must survive calls which fail"""
    n = int(rng.integers(3, 20))
    p = gcl.MomentumArray(gens.momenta(rng, n, "jets"))
    q = gcl.MomentumArray(gens.momenta(rng, 2, "collider"))
    before = int(rng.integers(1, MAXT + 1))
    nb.set_num_threads(before)

    bad = [
        ("threads=0", lambda: p.delta_R(q, True, 0)),
        ("too many threads", lambda: p.delta_R(q, True, MAXT + 1)),
        ("threads=-1", lambda: gcl.calculate.cluster_coeff_distbn(p, 0.5, True, -1)),
        ("thread name", lambda: p.delta_R(q, True, "two")),
        ("not momenta", lambda: p.delta_R(np.zeros((3, 4)), True, 1 + before % MAXT)),
        ("not momenta 2", lambda: p.delta_R(None, False, 1 + before % MAXT)),
        ("radius", lambda: gcl.calculate.cluster_coeff_distbn(p, "wide", True, 1 + before % MAXT)),
        ("focus", lambda: gcl.select.arg_closest(None, p, 1 + before % MAXT)),
        ("threads=0 closest", lambda: gcl.select.arg_closest(q, p, 0)),
    ]
    for what, fn in bad:
        mon.raises(what, fn)
        mon.check(nb.get_num_threads() == before, f"worker thread setting after a failing call ({what})", before=before, after=nb.get_num_threads())
        mon.obs("setting-after-failure")
    # a fault in the middle of a computation: a kernel is swapped for one which raises
    for name in ("_delta_R", "_delta_R_symmetric", "_clust_coeffs", "_assignment_cost"):
        real = getattr(gcl.calculate, name, None)
        if real is None:
            continue

        def boom(*a, **k):
            raise FloatingPointError("injected")

        setattr(gcl.calculate, name, boom)
        try:
            for label, fn in kernel_calls(p, q, True):
                try:
                    with core.quiet():
                        fn(1 + before % MAXT)
                except FloatingPointError:
                    mon.obs("injected-fault")
                mon.check(nb.get_num_threads() == before, f"worker thread setting after {label} with a fault in {name}", before=before, after=nb.get_num_threads())
                mon.obs("setting-after-failure")
        finally:
            setattr(gcl.calculate, name, real)
    mon.raises("c_parameter of nothing", lambda: gcl.calculate.c_parameter(None))
    nb.set_num_threads(MAXT)
    mon.sig(before, np.asarray(p.data))


def concurrent(mon, rng, i):
    """several Python threads share containers and kernels"""
    try:
        p = gcl.MomentumArray(gens.momenta(rng, 4, "jets"))
        p.delta_R(p)
        if nb.threading_layer() not in ("tbb", "omp"):
            raise core.Inconclusive("no thread-safe threading layer")
    except ValueError:
        raise core.Inconclusive("no threading layer")
    k = int(rng.integers(2, 7))
    n = int(rng.choice([3, 16, 60, 150]))
    rows = gens.momenta(rng, n, "jets")
    others = gens.momenta(rng, 3, "collider")
    pseudo = bool(rng.integers(2))
    names = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")

    def everything(p, q, t):
        out = [np.array(getattr(p, a)) for a in names]
        out += [np.array(fn(t)) for _, fn in kernel_calls(p, q, pseudo)[: 4 if n > 3 else 3]]
        out += [np.array(gcl.calculate.c_parameter(p)), np.array(gcl.calculate.thrust(p, False, 5)), np.array(gcl.calculate.combined_mass(p))]
        return out

    ref = everything(gcl.MomentumArray(rows), gcl.MomentumArray(others), 1)
    shared_p, shared_q = gcl.MomentumArray(rows), gcl.MomentumArray(others)
    errors, results, settings = [], [], []
    gate = threading.Barrier(k)

    def body(j, t):
        try:
            gate.wait(30)
            r = np.random.default_rng([i, j])
            for _ in range(3):
                own = bool(r.integers(2))
                p = gcl.MomentumArray(rows) if own else shared_p
                q = gcl.MomentumArray(others) if own else shared_q
                nb.set_num_threads(int(t))
                results.append(everything(p, q, int(1 + r.integers(MAXT))))
                settings.append((int(t), nb.get_num_threads()))
        except Exception as exc:  # noqa
            errors.append(exc)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(j, rng.integers(1, MAXT + 1)), daemon=True) for j in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            raise core.Inconclusive("concurrent callers did not finish in 60 s")
    finally:
        sys.setswitchinterval(old)
    mon.check(not errors, "concurrent callers failed", errors=errors)
    for got in results:
        for j, (a, b) in enumerate(zip(got, ref)):
            mon.same(a, b, f"result {j} of a concurrent caller against a lone one", n=n, callers=k)
            mon.obs("concurrent-calls")
    for want, got in settings:
        mon.check(want == got, "worker thread setting of a concurrent caller", before=want, after=got)
    mon.state("callers", k)
    mon.sig(rows, k, pseudo)


def canary(mon, rng, i):
    """arguments in the middle of larger buffers: surroundings neither read nor written"""
    n = int(rng.integers(1, 30))
    pad = int(rng.integers(1, 9))
    rows = gens.momenta(rng, n, "mixed")
    t = np.dtype([(c, "f8") for c in "xyze"])
    q = gcl.MomentumArray(gens.momenta(rng, min(n, 3), "collider"))
    masks = rng.random((2, n)) < 0.5
    w = rng.uniform(0, 1, n)
    first = None
    for value in (np.nan, 1e300, -3.0):
        buf = np.full((n + 2 * pad, 4), value).view(t)[:, 0]
        keep = buf.tobytes()
        for c, col in zip("xyze", rows.T):
            buf[c][pad:-pad] = col
        keep = buf.tobytes()
        mb = np.full((2, n + 2 * pad), bool(rng.integers(2)))
        mb[:, pad:-pad] = masks
        wb = np.full(n + 2 * pad, value)
        wb[pad:-pad] = w
        keep_m, keep_w = mb.tobytes(), wb.tobytes()
        p = gcl.MomentumArray(buf[pad:-pad])
        out = [np.array(getattr(p, a)) for a in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")]
        for label, fn in kernel_calls(p, q, bool(i % 2))[:3]:
            out.append(np.array(mon.call(label, fn, 1 + i % MAXT)))
        out.append(np.array(mon.call("c_parameter", gcl.calculate.c_parameter, p)))
        out.append(np.array(mon.call("thrust", gcl.calculate.thrust, p, False, 3)))
        out.append(np.array(mon.call("spherocity", gcl.calculate.spherocity, p, False, 3)))
        out.append(np.array(mon.call("jaccard", gcl.calculate.jaccard_distance, mb[0, pad:-pad], mb[1, pad:-pad], wb[pad:-pad])))
        mon.check(buf.tobytes() == keep and mb.tobytes() == keep_m and wb.tobytes() == keep_w, "argument or its surroundings were written", n=n)
        if first is None:
            first = out
        else:
            for j, (a, b) in enumerate(zip(out, first)):
                mon.same(a, b, f"result {j} depends on memory around the argument", n=n, fill=value)
        mon.obs("canary")
    mon.sig(rows)


def containers(rng, n):
    yield gcl.MomentumArray(gens.momenta(rng, n, "mixed")), gcl.MomentumArray(gens.momenta(rng, n, "mixed"))
    yield gcl.PdgArray(rng.choice([1, 2, -5, 21, 211], n)), gcl.PdgArray(rng.choice([11, 22], n))
    yield gcl.StatusArray(rng.integers(-90, 90, n)), gcl.StatusArray(rng.integers(-90, 90, n))
    yield gcl.HelicityArray(rng.integers(-1, 2, n)), gcl.HelicityArray(rng.integers(-1, 2, n))
    yield gcl.ColorArray(rng.integers(0, 600, (n, 2))), gcl.ColorArray(rng.integers(0, 600, (n, 2)))
    yield gcl.MaskArray(rng.random(n) < 0.5), gcl.MaskArray(rng.random(n) < 0.5)
    yield gcl.AdjacencyList(rng.integers(-9, 9, (n, 2))), gcl.AdjacencyList(rng.integers(-9, 9, (n, 2)))


def kept(mon, rng, i):
    """arrays obtained from a container stay valid once its data is replaced"""
    n = int(rng.choice([1, 3, 300, 5000]))
    for box, new in containers(rng, n):
        kind = type(box).__name__
        got = [np.asarray(box), np.array(box, copy=False) if n else np.asarray(box)]
        frame = getattr(box, "__array_interface__", None)
        if frame is not None:
            class Foreign:
                __array_interface__ = box.__array_interface__
            held = np.asarray(Foreign())
            got.append(held)
        want = [g.tobytes() for g in got]
        if kind != "AdjacencyList":  # which is immutable: it is only dropped
            box.data = np.array(new.data)
        trash = [np.full(int(g.nbytes), 0xEE, np.uint8) for g in got for _ in range(4)]
        del box
        trash += [np.full(int(g.nbytes), 0xEE, np.uint8) for g in got for _ in range(4)]
        for g, w in zip(got, want):
            mon.check(g.tobytes() == w, f"array obtained from a {kind} changed after its data was replaced", n=n)
        mon.obs("kept-arrays")
        mon.sig(kind, n, want[0])


GROUPS = [
    ("launch", lambda mon, rng, i: None if start(mon.seed) else None, 1, "once"),
    ("thread_counts", thread_counts, 30),
    ("failing", failing, 12),
    ("canary", canary, 40),
    ("kept", kept, 24),
    ("concurrent", concurrent, 24),
    ("instrumented", instrumented, len(ORDER), "once"),
]
