"""P13 clustering coefficients."""
import numpy as np

from . import core, gens, kin, p09

RULE = (
    "a case is one particle set and radius whose neighbourhood graph is rebuilt by "
    "plain loops; non-trivial when some particle has two neighbours; distinct by momenta and radius"
)
ASSUMPTIONS = [
    "radii are kept away from pairwise distances by more than the rounding of the distances",
    "particles are not beam-parallel; at most about 700 particles in the quick tier, 4300 in the thorough one",
]
REQUIRED = {"coefficients": 3000, "fractional": 100, "two-neighbours": 100, "threads>1": 100, "pseudo:False": 50, "dense": 15, "exact-rim": 15, "close-call": 20, "neighbours>256": 500}


def reference(d, radius):
    n = len(d)
    near = d < radius
    out = np.zeros(n)
    for a in range(n):
        nb = [b for b in range(n) if b != a and near[a, b]]
        k = len(nb)
        if k < 2:
            continue
        links = sum(1 for x in range(k) for y in range(x + 1, k) if near[nb[x], nb[y]])
        out[a] = links / (k * (k - 1) / 2)
    return out, near


def fast_reference(d, radius):
    """the same by matrix products of 64-bit integers"""
    near = d < radius
    a = near.copy()
    np.fill_diagonal(a, False)
    m = a.astype(float)
    links = np.einsum("ij,ij->i", m @ m, m) / 2
    k = m.sum(1)
    pairs = k * (k - 1) / 2
    return np.where(k >= 2, links / np.where(pairs > 0, pairs, 1), 0.0), near


def g_dense(mon, rng, i):
    """hundreds of neighbours per particle"""
    import graphicle as gcl

    n = int([260, 300, 370, 520, 700, 150][i % 6] + rng.integers(0, 30))
    rows = gens.momenta(rng, n, ["collider", "jets", "massless"][i % 3])
    p = gcl.MomentumArray(rows.copy())
    pseudo = bool(i % 2)
    d, tol, _, _ = p09.expected(rows, rows, pseudo)
    np.fill_diagonal(d, 0.0)
    for r in ([100.0] if i % 4 == 0 else []) + [float(np.quantile(d, q)) for q in rng.uniform(0.3, 0.98, 3)]:
        flat = np.sort(d[np.triu_indices(n, 1)])
        j = int(np.clip(np.searchsorted(flat, r), 1, len(flat) - 1))
        r = (flat[j] + flat[j - 1]) / 2 if r < 100 else r
        if np.any((np.abs(d - r) <= 4 * tol + 1e-10) & ~np.eye(n, dtype=bool)):
            mon.obs("skipped-boundary")
            continue
        want, near = fast_reference(d, r)
        got = mon.call("cluster_coeff_distbn", gcl.calculate.cluster_coeff_distbn, p, float(r), pseudo=pseudo, threads=core.threads(rng))
        mon.close(got, want, "clustering coefficient of a dense set", rtol=2e-6, atol=1e-7, n=n, radius=r, pseudo=pseudo)
        mon.obs("dense")
        mon.obs("neighbours>256", int((near.sum(1) > 257).sum()))
        mon.sig(rows, r, pseudo)


def g_coeff(mon, rng, i):
    import graphicle as gcl

    n = int([0, 1, 2, 3][rng.integers(4)] if rng.random() < 0.15 else rng.integers(3, 40))
    if i % 25 == 0:
        n = int(rng.integers(60, 140))
    kd = gens.kind(rng, beam=False)
    if kd == "forward" and rng.random() < 0.5:
        kd = "jets"
    rows = gens.momenta(rng, n, kd)
    if n > 2 and rng.random() < 0.2:
        rows[1] = rows[0]  # coincident particles
    p = gcl.MomentumArray(rows.copy())
    pseudo = bool(rng.random() < 0.6)
    d, tol, _, _ = p09.expected(rows, rows, pseudo)
    np.fill_diagonal(d, 0.0)
    r = float(10.0 ** rng.uniform(-1.5, 1.0))
    if n > 2 and rng.random() < 0.6:  # just beyond or short of a real distance
        pick = d[np.triu_indices(n, 1)]
        r = float(pick[rng.integers(len(pick))]) * float(1 + rng.choice([-1, 1]) * rng.choice([1e-4, 2e-8]))
    if rng.random() < 0.05:
        r = 100.0
    exact = False
    if rng.random() < 0.12:  # exact distances: nothing is strictly closer than the radius to itself or its rim
        exact = True
        mon.obs("exact-rim")
        if n == 0 or rng.random() < 0.5:
            r = 0.0
            if n > 2:
                rows[rng.integers(0, n, n // 2)] = rows[0]
        else:
            corner = np.array([(1.0, 0, 0), (0, 1.0, 0)] if rng.random() < 0.5 else [(1.0, 0, 0), (0, -1.0, 0)])
            mag = 2.0 ** rng.integers(-5, 6, n)
            rows = np.column_stack([corner[rng.integers(0, 2, n)] * mag[:, None], mag * 2])
            r = float(np.pi / 2)
        p = gcl.MomentumArray(rows.copy())
        d, tol, _, _ = p09.expected(rows, rows, pseudo)
        d = np.where(d > r / 2, r, 0.0)
        np.fill_diagonal(d, 0.0)
    if not exact and (r <= 1e-9 or np.any((np.abs(d - r) <= 4 * tol + 1e-11) & ~np.eye(n, dtype=bool))):
        mon.obs("skipped-boundary")
        return
    mon.obs("close-call", int((np.abs(d - r) <= 5e-8 * r).any()))
    want, near = reference(d, r)
    t = core.threads(rng)
    if t > 1:
        mon.obs("threads>1")
    kw = dict(pseudo=pseudo, threads=t)
    if pseudo and rng.random() < 0.4:
        kw.pop("pseudo")
    if t == 1:
        kw.pop("threads")
    fn = gcl.calculate.cluster_coeff_distbn
    got = mon.call("cluster_coeff_distbn", fn, p, r, **kw)
    mon.check(got.shape == (n,) and got.dtype == np.float32, "one single precision coefficient per particle", shape=got.shape)
    mon.close(got, want, "clustering coefficient", rtol=1e-6, atol=1e-7, rows=rows, radius=r, pseudo=pseudo)
    mon.check(bool(np.all((got >= 0) & (got <= 1 + 1e-6))), "coefficients lie in [0, 1]")
    again = mon.call("cluster_coeff_distbn", fn, p, r, pseudo=pseudo, threads=core.threads(rng))
    mon.same(again, got, "coefficients with another thread count")
    perm = rng.permutation(n)
    mon.close(mon.call("cluster_coeff_distbn", fn, p[perm], r, pseudo=pseudo), want[perm], "coefficients of reordered particles", rtol=1e-6, atol=1e-7)
    mon.obs("coefficients", n)
    mon.obs("fractional", int(((want > 0) & (want < 1)).sum()))
    deg = near.sum(1) - 1
    mon.obs("two-neighbours", int((deg == 2).sum()))
    mon.obs(f"pseudo:{pseudo}")
    mon.state("degree", "n")
    for v in set(deg.tolist()):
        mon.state("degree", v)
    mon.sig(rows, r, pseudo, nontrivial=bool((deg >= 2).any()))
    mon.sample(f"{n} {kd} particles, radius {r:.4g}, pseudo={pseudo}, threads={t}: mean coefficient {float(want.mean()) if n else 0:.4f}")


def g_crowd(mon, rng, i):
    """more than 2^24 links among the neighbours (thorough tier only: minutes)"""
    import os

    import graphicle as gcl

    # in one of the worker processes, or when replayed
    if mon.only is None and (os.environ.get("VERIF_TIER", "quick") != "thorough" or mon.seed >= 1000003):
        return
    n = 4300
    xy = rng.normal(0, 0.01, (n, 3)) + [1, 0, 0]
    p = gcl.MomentumArray(np.column_stack([xy, np.linalg.norm(xy, axis=1)]))
    got = mon.call("cluster_coeff_distbn", gcl.calculate.cluster_coeff_distbn, p, 1.0, threads=core.threads())
    mon.close(got, np.ones(n), "clustering coefficient of a crowd", rtol=2e-6, n=n)
    mon.obs("crowd")
    mon.sig("crowd", n)


GROUPS = [("coeff", g_coeff, 420), ("dense", g_dense, 10), ("crowd", g_crowd, 1, "once")]
