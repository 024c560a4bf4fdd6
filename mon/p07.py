"""P07 derived kinematics never go stale; arithmetic is the number table's."""
import operator

import numpy as np

from . import core, gens, kin, spec

RULE = (
    "a case is a pool of momentum containers driven through a random interleaving "
    "of reads and mutations, all derived quantities recomputed from the held "
    "components after every step; or one arithmetic expression against numpy; "
    "distinct by history and contents"
)
ASSUMPTIONS = [
    "a mutation through an overlapping view or a raw data view is a recorded finding; the monitor tolerates exactly that",
]
REQUIRED = {"reads": 2000, "op:data=": 30, "op:inplace": 60, "op:out": 30, "op:shift": 30, "op:slice": 30,
            "op:copy": 20, "op:at": 20, "alias-reads": 100, "arith": 500, "reductions": 100, "square": 50, "comparisons": 500, "whole-numbers": 300}
DERIVED = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t", "x", "y", "z", "energy")
KNOWN_VIEW = "derived attributes of a momentum container go stale when its memory is changed through an overlapping slice or other view"
KNOWN_RAW = "derived attributes go stale after writing into the arrays exposed by .data / .x / .energy"


class Entry:
    def __init__(self, obj, tab):
        self.obj, self.tab, self.taint = obj, np.array(tab, float), None
        self.alias = obj


def reference(tab):
    """Values of the library's own definitions on a fresh container."""
    import graphicle as gcl

    fresh = gcl.MomentumArray(np.array(tab, float).reshape(-1, 4).copy())
    with core.quiet():
        return {d: np.array(getattr(fresh, d)) for d in DERIVED}


def agree(got, want):
    return got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True)


def judge(mon, rng, e, what, all_=False):
    got = np.array(e.obj.data)
    tab = np.column_stack([got[f] for f in "xyze"]) if len(got) else np.zeros((0, 4))
    mon.same(tab, e.tab, what + ": components")
    want = reference(e.tab)
    names = DERIVED if all_ else [DERIVED[j] for j in rng.choice(len(DERIVED), int(rng.integers(1, 5)), replace=False)]
    for d in names:
        for holder, tag in ((e.obj, "reads"), (e.alias, "alias-reads")):
            with core.quiet():
                v = np.asarray(getattr(holder, d))
            mon.obs(tag)
            mon.counts["verdicts"] += 1
            if not agree(v, want[d]):
                if e.taint:
                    mon.known(e.taint, KNOWN_VIEW if e.taint == "view-alias" else KNOWN_RAW)
                else:
                    mon.fail(f"{what}: {d} does not describe the held momenta", got=v, want=want[d])
    # and the definitions themselves, independently
    if not e.taint and len(e.tab) and rng.random() < 0.3 and np.all(np.isfinite(e.tab)) and physical(e.tab):
        with core.quiet():
            kin.compare(mon, e.obj, e.tab, what)


def physical(tab):
    k = kin.Kin(tab)
    return bool(np.all(k.m2 >= -k.m2_tol())) and bool(np.all(k.e >= 0))


def settle(entries, changed):
    """After an in-place change: what shares memory follows the change."""
    for f in entries:
        if f is not changed and f.obj is not changed.obj and len(f.tab) and np.shares_memory(f.obj.data, changed.obj.data):
            d = np.array(f.obj.data)
            f.tab = np.column_stack([d[c] for c in "xyze"])
            f.taint = "view-alias"


def g_histories(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 9))

    def new(m=None, kd=None):
        return gens.momenta(rng, n if m is None else m, kd or gens.kind(rng, beam=False))

    rows = new()
    pool = [Entry(gcl.MomentumArray(rows.copy()), rows)]
    log = []
    for _ in range(int(rng.integers(4, 16))):
        e = pool[rng.integers(len(pool))]
        m = len(e.tab)
        op = str(rng.choice(["read", "read", "read", "data=", "inplace", "inplace", "out", "out-other", "out-array", "at", "shift",
                             "slice", "take", "copy", "new-arith", "rewrap", "raw", "sum", "noop-inplace"]))
        mon.obs("op:" + op)
        log.append(op)
        if op == "read":
            judge(mon, rng, e, "read")
        elif op == "data=":
            new_rows = new(int(rng.integers(0, 9)))
            e.obj.data = spec.layout(rng, spec.specs()["pmu"], new_rows)[0]
            e.tab, e.taint = new_rows.astype(float), None
        elif op in ("inplace", "noop-inplace"):
            obj, tab = e.obj, e.tab.copy()
            kind = int(rng.integers(7)) if op == "inplace" else 7
            before = obj
            if kind == 0:
                s = new(m)
                obj += s
                tab += s
            elif kind == 1:
                s = float(rng.uniform(0.5, 2))
                obj *= s
                tab *= s
            elif kind == 2:
                s = new(m)
                obj += gcl.MomentumArray(s.copy())
                tab += s
            elif kind == 3:
                obj /= 2.0
                tab /= 2.0
            elif kind == 4:
                s = rng.uniform(0.1, 1, (m, 1))
                obj *= s
                tab *= s
            elif kind == 5:
                s = new(1)
                obj -= s
                tab -= s
            elif kind == 6:
                obj += obj
                tab += tab
            else:
                obj *= 1.0
            e.obj, e.tab, e.taint = obj, tab, None
            mon.check(len(before) == len(obj), "in-place arithmetic changed the length")
            settle(pool, e)
        elif op == "out":
            s = new(m)
            with core.quiet():
                f, w = [(np.add, e.tab + s), (np.multiply, e.tab * s), (np.subtract, e.tab - s)][rng.integers(3)]
                f(e.obj, s if rng.random() < 0.5 else gcl.MomentumArray(s), out=e.obj)
            e.tab, e.taint = w, None
            settle(pool, e)
        elif op == "out-array":
            buf = np.full((m, 4), np.nan)
            want = e.tab * 2.0 + 1.0
            np.multiply(e.obj, 2.0, out=buf)
            np.add(gcl.MomentumArray(buf), np.ones((m, 4)), out=buf)
            mon.same(buf, want, "arithmetic into a plain array")
        elif op == "out-other":
            same = [f for f in pool if len(f.tab) == m]
            t = same[rng.integers(len(same))]
            a = e.tab.copy()
            r = np.multiply(e.obj, 3.0, out=t.obj)
            mon.check(isinstance(r, gcl.MomentumArray), "result of output-directed arithmetic", got=type(r))
            d = np.array(r.data)
            mon.same(np.column_stack([d[c] for c in "xyze"]), a * 3.0, "returned output")
            t.tab, t.taint = a * 3.0, None
            settle(pool, t)
        elif op == "at" and m:
            j = rng.integers(0, m, int(rng.integers(1, 4)))
            np.add.at(e.obj, j, 2.0)
            np.add.at(e.tab, j, 2.0)
            e.taint = None
            settle(pool, e)
        elif op == "shift" and physical(e.tab) and m:
            s = float(rng.uniform(-1, 1))
            how = int(rng.integers(3))
            src = core.snap(e.obj)
            with core.quiet():
                if e.taint:
                    continue
                q = [e.obj.shift_phi, e.obj.shift_rapidity, lambda s: e.obj.shift_eta(s, experimental=True)][how](s)
                mon.check(core.snap(e.obj) == src, "shift changed its source")
                d = np.array(q.data)
            f = Entry(q, np.column_stack([d[c] for c in "xyze"]))
            judge(mon, rng, f, "shifted", True)
            if how < 2:
                pool.append(f)
        elif op == "slice":
            a, b = sorted(rng.integers(0, m + 1, 2).tolist())
            st = int(rng.choice([1, 1, 2, -1]))
            key = slice(a, b) if st == 1 else slice(None, None, st)
            pool.append(Entry(e.obj[key], e.tab[key]))
        elif op == "take" and m:
            k = rng.random(m) < 0.6
            key = k if rng.random() < 0.5 else gcl.MaskArray(k)
            pool.append(Entry(e.obj[key], e.tab[k]))
        elif op == "copy":
            pool.append(Entry(e.obj.copy(), e.tab))
        elif op == "rewrap":
            pool.append(Entry(gcl.MomentumArray([e.obj, e.obj.data][rng.integers(2)]), e.tab))
        elif op == "new-arith":
            s = new(m)
            pool.append(Entry(e.obj + s, e.tab + s))
        elif op == "sum" and m:
            q = np.sum(e.obj, axis=0)
            mon.close(np.array(q.data.tolist()), e.tab.sum(0).reshape(1, 4), "sum", rtol=1e-12, atol=1e-9 * np.abs(e.tab).max())
            d = np.array(q.data)
            pool.append(Entry(q, np.column_stack([d[c] for c in "xyze"])))
        elif op == "raw" and m and rng.random() < 0.3:
            e.obj.data["x"][...] += 1.0
            e.tab[:, 0] += 1.0
            settle(pool, e)
            e.taint = "direct-write"
        for f in pool:
            judge(mon, rng, f, f"after {' '.join(log[-4:])}")
        if len(pool) > 5:
            pool = pool[-5:]
    for f in pool:
        judge(mon, rng, f, f"at the end of {' '.join(log)}", True)
    mon.sig(rows, log)
    mon.sample(f"{n} momenta: {log}")
    mon.state("op-trigram", tuple(log[:3]))


def g_known(mon, rng, i):
    """Direct probe of the recorded findings."""
    import graphicle as gcl

    p = gcl.MomentumArray(gens.momenta(rng, 4, "collider"))
    q = p[1:]
    _ = (p.pt, q.pt)
    p *= 2.0
    if not np.allclose(q.pt, np.hypot(q.x, q.y)):
        mon.known("view-alias", KNOWN_VIEW)
    q = p.copy()
    _ = q.pt
    q.data["x"][...] += 5.0
    if not np.allclose(q.pt, np.hypot(q.x, q.y)):
        mon.known("direct-write", KNOWN_RAW)
    mon.sig("known")


def g_arith(mon, rng, i):
    import graphicle as gcl

    sps = spec.specs()
    name = ("pmu", "pmu", "pmu", "color", "edges", "pdg", "helicity", "status")[i % 8]
    sp = sps[name]
    n = int(rng.integers(0, 9)) if rng.random() < 0.7 else sp.cols
    if name == "pmu":
        a, b = gens.momenta(rng, n, "mixed"), gens.momenta(rng, n, "mixed")
    else:
        shape = (n,) if sp.cols == 1 else (n, sp.cols)
        a, b = (rng.integers(-40, 41, shape).astype(sp.dtype) for _ in range(2))
    x = sp.cls(a.copy())
    y = sp.cls(b.copy())
    one = float(rng.uniform(0.5, 3)) if name == "pmu" else int(rng.integers(1, 5))
    ops = [operator.add, operator.sub, operator.mul] + ([operator.truediv] if name == "pmu" else [])
    col = None
    cases = []
    for f in ops:
        cases += [(f, x, y, f(a, b) if f is not operator.truediv else None), (f, x, one, f(a, one)), (f, one, x, None if f is operator.truediv else f(one, a)), (f, x, b.copy(), None if f is operator.truediv else f(a, b))]
        if sp.cols > 1:
            row = b[:1] if n else np.ones((1, sp.cols), sp.dtype)
            if f is not operator.truediv:
                cases += [(f, x, row, f(a, row)), (f, row, x, f(row, a))]
                cases.append((f, x, row[0].tolist(), f(a, row[0])))
                cases += [(f, x, row[0].copy(), f(a, row[0])), (f, row[0].copy(), x, f(row[0], a))]
                if n:
                    cases.append((f, x, b.tolist(), f(a, b)))
                mon.obs("square", int(n == sp.cols))
            col = rng.integers(1, 5, (n, 1)).astype(sp.dtype)
            cases.append((f, x, col, f(a, col)))
            cases.append((f, col, x, None if f is operator.truediv else f(col, a)))
    cases.append((lambda u, v: -u, x, None, -a))
    cases.append((lambda u, v: +u, x, None, a))
    cases.append((lambda u, v: abs(u), x, None, np.abs(a)))
    cases.append((np.maximum, x, y, np.maximum(a, b)))
    if name == "pmu":
        cases.append((lambda u, v: np.sqrt(abs(u)), x, None, np.sqrt(np.abs(a))))
        cases.append((lambda u, v: u**2, x, None, a**2))
    for f, u, v, want in cases:
        if want is None:
            continue
        got = mon.call("arith", f, u, v)
        mon.obs("arith")
        mon.check(isinstance(got, sp.cls), f"{name}: type of an arithmetic result", got=type(got))
        if n or sp.cols == 1:
            mon.same(spec.table(sp, got), want.astype(sp.dtype), f"{name}: arithmetic {getattr(f, '__name__', f)}")
    if name != "pmu":
        by = rng.integers(1, 9, a.shape).astype(sp.dtype)
        ints = [operator.floordiv, operator.mod, operator.pow] if name != "helicity" else [operator.floordiv, operator.mod]
        for f in ints:
            k = min(one, 2)
            for u, v, want in ((x, k, f(a, k)), (x, by % 3 + 1, f(a, by % 3 + 1)), (x, sp.cls(by % 3 + 1), f(a, by % 3 + 1)))[: 1 if f is operator.pow and name in ("helicity", "status") else 3]:
                got = mon.call("arith", f, u, v)
                mon.check(isinstance(got, sp.cls), f"{name}: type of an arithmetic result", got=type(got))
                if n or sp.cols == 1:
                    mon.same(spec.table(sp, got), want.astype(sp.dtype), f"{name}: arithmetic {f.__name__}")
                mon.obs("whole-numbers")
        if n or sp.cols == 1:
            quo, rem = mon.call("divmod", divmod, x, sp.cls(by))
            mon.same(spec.table(sp, quo), a // by, f"{name}: whole quotients")
            mon.same(spec.table(sp, rem), a % by, f"{name}: remainders")
    if sp.cols == 1:
        at = int(rng.integers(-40, 41))
        near = np.where(rng.random(a.shape) < 0.3, a, b).astype(sp.dtype)
        for f in (operator.lt, operator.le, operator.gt, operator.ge):
            for u, v, want in ((x, at, f(a, at)), (at, x, f(at, a)), (x, sp.cls(near), f(a, near)), (x, near.copy(), f(a, near)), (near.copy(), x, f(near, a)),
                               (x, near.tolist(), f(a, near))):
                got = mon.call("comparison", f, u, v)
                mon.check(isinstance(got, gcl.MaskArray), f"{name}: type of a comparison", got=type(got))
                mon.same(np.array(got.data), want, f"{name}: comparison {f.__name__}", at=at)
                mon.obs("comparisons")
    # ufuncs with several results
    if name == "pmu" and n:
        fr, it = mon.call("modf", np.modf, x)
        wf, wi = np.modf(a)
        mon.same(spec.table(sp, fr), wf, "fractional parts")
        mon.same(spec.table(sp, it), wi, "integral parts")
    # reductions
    if n and name != "edges":
        big = dict(rtol=1e-12, atol=1e-9 * float(np.abs(a).max() + 1) if name == "pmu" else 0)
        mon.obs("reductions")
        if sp.cols > 1:
            s = mon.call("sum axis 0", np.sum, x, axis=0)
            mon.check(isinstance(s, sp.cls) and len(s) == 1, "type of a sum over rows", got=type(s))
            mon.close(spec.table(sp, s)[0], a.sum(0), f"{name}: sum over rows", **big)
            r = mon.call("sum axis 1", np.sum, x, axis=1)
            mon.check(isinstance(r, np.ndarray), "type of a sum over columns", got=type(r))
            mon.close(r, a.sum(1), f"{name}: sum over columns", **big)
            w = rng.random(n) < 0.5
            mon.close(spec.table(sp, np.sum(x[w], axis=0))[0], a[w].sum(0), f"{name}: sum over a selection", **big)
        else:
            s = mon.call("sum", np.sum, x)
            mon.check(int(s) == int(a.sum()), f"{name}: sum", got=s)
    mon.sig("arith", name, a, b, nontrivial=n > 0)
    mon.sample(f"{name} n={n}")


GROUPS = [("histories", g_histories, 350), ("arith", g_arith, 320), ("known", g_known, 1, "once")]
