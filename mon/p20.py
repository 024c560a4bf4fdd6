"""P20 status queries."""
import numpy as np

from . import core, event

RULE = (
    "a case is one status array queried with random ranges and for its hard-process masks, each recomputed particle "
    "by particle; non-trivial when at least two different statuses are present; distinct by array and request"
)
ASSUMPTIONS = ["the status -32768, whose magnitude a 16-bit integer cannot hold, is not used"]
REQUIRED = {"range": 1500, "range-true": 3000, "range-false": 3000, "at-lower-bound": 100, "at-upper-bound": 100,
            "hard-mask": 150, "hard-true": 300, "open-range": 200, "sign-matters": 100, "graphicle-hard-mask": 12}
STAGES = {"incoming": 21, "intermediate": 22, "outgoing": 23, "outgoing_nonperturbative_diffraction": 24}


def statuses(rng, n):
    r = rng.integers(4)
    if r == 0:
        return rng.integers(-120, 121, n)
    if r == 1:
        return rng.choice([-21, 21, -22, 22, -23, 23, -24, 24, 0, 1, -1, 20, 25, -20, -25], n)
    if r == 2:
        return rng.integers(-32767, 32768, n)
    return rng.choice([0, 1, 2, 3, -12, -31, -33, -41, -51, -61, -71, 83, 84, 91, -21, -22, -23, 62, 63], n)


def ranges(mon, rng, stat, times):
    import graphicle as gcl

    arr = gcl.StatusArray(stat)
    vals = [int(s) for s in stat] or [0]
    for _ in range(times):
        lo = int(rng.choice(vals)) * int(rng.choice([-1, 1])) + int(rng.choice([0, 0, 0, -1, 1]))
        if rng.random() < 0.1:
            lo = int(rng.choice([-40000, 40000, 0, 255, -256]))
        hi = [None, lo, lo + int(rng.integers(0, 30)), lo - int(rng.integers(1, 5)), int(rng.choice(vals)), abs(int(rng.choice(vals)))][rng.integers(6)]
        signed = bool(rng.integers(2))
        kw = dict(min_status=lo, max_status=hi, sign_sensitive=signed)
        if hi is None and rng.random() < 0.5:
            del kw["max_status"]
        if not signed and rng.random() < 0.5:
            del kw["sign_sensitive"]
        if rng.random() < 0.1:
            del kw["min_status"]
            lo = 0
        got = mon.call("in_range", arr.in_range, **kw)
        mon.check(isinstance(got, gcl.MaskArray), "range mask type", got=type(got))
        mags = [v if signed else abs(v) for v in (int(s) for s in stat)]
        want = [lo <= m and (hi is None or m <= hi) for m in mags]
        mon.check(got.data.dtype == bool and got.data.tolist() == want, "status range", kw=kw, status=stat, got=got.data, want=want)
        mon.obs("range")
        mon.obs("open-range", int(hi is None))
        mon.obs("range-true", sum(want))
        mon.obs("range-false", len(want) - sum(want))
        mon.obs("at-lower-bound", sum(m == lo for m in mags))
        mon.obs("at-upper-bound", sum(m == hi for m in mags))
        mon.obs("sign-matters", int(any(v < 0 for v in vals) and signed))
    mon.same(arr.data, stat, "statuses after queries")


def hard(mon, got, stat):
    import graphicle as gcl

    mon.check(isinstance(got, gcl.MaskGroup), "hard mask is a group")
    mon.check(set(got.keys()) == set(STAGES), "stages", got=list(got.keys()))
    union = [False] * len(stat)
    for key, code in STAGES.items():
        want = [abs(int(s)) == code for s in stat]
        union = [a or b for a, b in zip(union, want)]
        mon.check(isinstance(got[key], gcl.MaskArray), "stage mask type")
        mon.check(np.asarray(got[key].data).tolist() == want, f"hard mask {key}", got=got[key].data, want=want, status=stat)
        mon.obs("hard-true", sum(want))
    mon.check(np.asarray(got.data).tolist() == union, "hard mask union", got=got.data, want=union)
    mon.obs("hard-mask")


def g_ranges(mon, rng, i):
    n = int(rng.choice([0, 1, 5, 40, 200]))
    stat = statuses(rng, n)
    ranges(mon, rng, stat, 12)
    mon.sig(stat, nontrivial=len(set(stat.tolist())) > 1)
    mon.sample(stat[:10].tolist())


def g_hard(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 5, 40, 200]))
    stat = statuses(rng, n) if rng.random() < 0.4 else rng.choice([-24, -23, -22, -21, 21, 22, 23, 24, 2, -2, 0, 62], n)
    arr = gcl.StatusArray(stat)
    hard(mon, mon.call("hard_mask", getattr, arr, "hard_mask"), stat)
    # a mask obtained earlier must not change, and a later one must follow the data
    if n:
        old = arr.hard_mask
        new = statuses(rng, n)
        arr.data = new
        hard(mon, old, stat)
        hard(mon, mon.call("hard_mask", getattr, arr, "hard_mask"), new)
        order = rng.permutation(n)
        hard(mon, mon.call("hard_mask", getattr, arr[order], "hard_mask"), new[order])
    mon.sig(stat, nontrivial=len(set(stat.tolist())) > 1)


def g_event(mon, rng, i):
    import graphicle as gcl

    ev = event.Event(rng)
    g = ev.graph()
    stat = np.asarray(ev.status)
    got = mon.call("Graphicle.hard_mask", getattr, g, "hard_mask")
    hard(mon, got, stat)
    mon.obs("graphicle-hard-mask")
    ranges(mon, rng, stat, 4)
    part = g[got]
    want = np.flatnonzero([abs(int(s)) in (21, 22, 23, 24) for s in stat])
    mon.same(part.pdg.data, np.asarray(ev.pdg)[want], "codes of the hard process")
    mon.same(part.pmu.data.view("<f8").reshape(-1, 4) if part.pmu.data.dtype.names else part.pmu.data, np.asarray(ev.pmu)[want], "momenta of the hard process")
    mon.sig(stat)


GROUPS = [("ranges", g_ranges, 200), ("hard", g_hard, 100), ("event", g_event, 40)]
