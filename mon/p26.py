"""P26 random momenta."""
import math

import numpy as np

from . import core, kin

RULE = (
    "a case is one sample of random momenta checked particle by particle for physicality, and for large samples by "
    "distribution tests; non-trivial for samples of at least two particles; distinct by sample"
)
ASSUMPTIONS = [
    "distribution tests reject at a probability below 1e-10 per test under the stated distribution (distribution-free "
    "Kolmogorov and Hoeffding bounds), so a false alarm has a probability below 1e-6 per run",
    "a particle counts as massless when its mass is below 1e-5 of its energy",
]
REQUIRED = {"samples": 100, "particles": 300000, "big-samples": 16, "seed-repeat": 50, "seed-differs": 50, "edge-seeds": 25, "seed-zero": 1, "mass-samples": 10, "rare-prob": 8,
            "unseeded": 10, "rejected": 60, "bands": 100, "ensembles": 4, "massless:none": 10, "massless:all": 10, "massless:some": 20}
P = 1e-10


def ks(mon, u, what, **ctx):
    """u should be uniform on [0, 1]"""
    n = len(u)
    u = np.sort(u)
    g = np.arange(1, n + 1) / n
    d = max(np.max(g - u), np.max(u - (g - 1 / n)))
    lim = math.sqrt(math.log(2 / P) / (2 * n))
    mon.check(d < lim, f"{what} is not uniform", D=float(d), limit=lim, n=n, **ctx)
    mon.obs("distribution-tests")


def uncorrelated(mon, u, v, what, slack=0.0):
    """u, v in [0, 1], independent and uniform: quadrant counts"""
    n = len(u)
    lim = slack + math.sqrt(math.log(2 / P) / (2 * n))
    for a in (0.25, 0.5, 0.75):
        for b in (0.25, 0.5, 0.75):
            f = np.mean((u < a) & (v < b))
            mon.check(abs(f - a * b) < lim, f"{what} are not independent", f=float(f), want=a * b, limit=lim)
            mon.obs("distribution-tests")


def chernoff(mon, count, n, p, what, **ctx):
    """``count`` successes of probability ``p``: exact relative-entropy bound"""
    f = count / n
    kl = 0.0
    for a, b in ((f, p), (1 - f, 1 - p)):
        if a > 0:
            kl += a * math.log(a / b) if b > 0 else math.inf
    mon.check(n * kl < math.log(2 / P), what, got=f, want=p, n=n, **ctx)
    mon.obs("distribution-tests")


def ranks(v):
    u = np.empty(len(v))
    u[np.argsort(v, kind="stable")] = (np.arange(len(v)) + 0.5) / len(v)
    return u


def rows_of(p):
    return np.stack([np.asarray(p.data[c], float) for c in "xyze"], axis=-1).reshape(-1, 4)


def physical(mon, rows, size, emax, prob):
    mon.check(rows.shape == (size, 4), "number of particles", got=rows.shape, want=size)
    mon.check(bool(np.isfinite(rows).all()), "finite momenta")
    k = kin.Kin(rows)
    e, p = np.asarray(k.e, float), np.asarray(k.p, float)
    mon.check(bool((e >= 0).all() and (e <= emax * (1 + 1e-12)).all()), "energies within range", emax=emax, lo=e.min() if size else 0, hi=e.max() if size else 0)
    mon.check(bool((p <= e * (1 + 1e-12)).all()), "no particle is space-like")
    rel = np.sqrt(np.maximum(np.asarray(k.m2, float), 0)) / np.where(e > 0, e, 1)
    light = rel < 1e-5
    if prob == 1.0:
        mon.check(bool(light.all()), "all massless", heaviest=float(rel.max()) if size else 0)
    mon.obs("particles", size)
    mon.obs("massless:" + ("all" if prob == 1 else "none" if prob == 0 else "some"))
    return k, light


def g_small(mon, rng, i):
    import graphicle as gcl

    f = gcl.MomentumArray.from_spherical_uniform
    size = int(rng.choice([0, 1, 2, 3, 10, 100]))
    emax = float(10.0 ** (rng.uniform(-3, 4) if rng.random() < 0.8 else rng.uniform(-8, 9)))
    prob = float(rng.choice([0.0, 1.0, 0.5, rng.random(), 1e-3, 1 - 1e-3]))
    seed = int(rng.integers(0, 2**32))
    if rng.random() < 0.3:
        seed = [0, 0, 1, 2, 2**32 - 2, 2**31, 2**64, 2**40 + 3, 2**70 + 1][rng.integers(9)]
        mon.obs("edge-seeds")
        mon.obs("seed-zero", int(seed == 0))
    kw = {} if prob == 0.0 and rng.random() < 0.5 else {"massless": prob}
    got = mon.call("from_spherical_uniform", f, size, emax, seed=seed, **kw)
    mon.check(isinstance(got, gcl.MomentumArray) and len(got) == size, "sample type and size")
    rows = rows_of(got)
    _, light = physical(mon, rows, size, emax, prob)
    if prob == 0.0:
        mon.check(int(light.sum()) <= 3, "massless particles in a massive sample", n=int(light.sum()))
    # reproducible whatever happened in between
    np.random.random(3)
    other = mon.call("from_spherical_uniform", f, size, emax, seed=seed + [1, 1, 2**31, 2**32, 2**64, 2**96][rng.integers(6)], **kw)
    again = mon.call("from_spherical_uniform", f, size, emax, seed=seed, **kw)
    mon.same(rows_of(again), rows, "same seed, same sample")
    mon.obs("seed-repeat")
    if size:
        mon.check(not np.array_equal(rows_of(other), rows), "different seeds give the same sample", seed=seed)
        mon.obs("seed-differs")
        o = rows_of(other)
        if size > 2 and min(prob, 1 - prob) not in (0.001,):
            for nm, get in (("energies", lambda r: r[:, 3]), ("azimuths", lambda r: np.arctan2(r[:, 1], r[:, 0])), ("inclinations", lambda r: np.arctan2(np.hypot(r[:, 0], r[:, 1]), r[:, 2]))):
                mon.check(not np.any(np.isclose(get(rows), get(o), rtol=1e-9, atol=0).sum() > 1), f"{nm} of different seeds coincide", seed=seed)
        a = mon.call("from_spherical_uniform", f, size, emax, **kw)
        b = mon.call("from_spherical_uniform", f, size, emax, **kw)
        mon.check(not np.array_equal(rows_of(a), rows_of(b)), "unseeded samples repeat")
        physical(mon, rows_of(a), size, emax, prob)
        mon.obs("unseeded")
    if size > 1:
        d = rows[:, :3] / np.maximum(np.linalg.norm(rows[:, :3], axis=1), 1e-300)[:, None]
        mon.check(len(np.unique(d.round(9), axis=0)) == size, "distinct directions")
        for nm, v in (("azimuths", np.arctan2(rows[:, 1], rows[:, 0])), ("inclinations", d[:, 2]), ("energies", rows[:, 3] / emax)):
            mon.check(len(np.unique(v.round(12))) == size, f"{nm} of different particles coincide", seed=seed, size=size)
    for bad in (-float(rng.uniform(1e-9, 2)), 1 + float(rng.uniform(1e-9, 2)), float("nan")):
        mon.raises("from_spherical_uniform", f, size, emax, bad, types=(ValueError,))
        mon.obs("rejected")
    mon.obs("samples")
    mon.sig(rows, nontrivial=size > 1)
    mon.sample(dict(size=size, emax=emax, massless=prob, seed=seed))


def g_many(mon, rng, i):
    """Many small samples: how many particles are massless, and which."""
    import graphicle as gcl

    size, m = (1 if i == 0 else int(rng.integers(2, 12))), 600
    prob = float(rng.choice([0.5, 0.25, 0.75, rng.uniform(0.1, 0.9)]))
    seed0 = int(rng.integers(0, 2**31))
    light = np.zeros((m, size), bool)
    firsts = np.zeros((m, 4))
    for j in range(m):
        with core.quiet():
            rows = rows_of(gcl.MomentumArray.from_spherical_uniform(size, 10.0, prob, seed0 + j))
        p = np.sqrt((rows[:, :3] ** 2).sum(1))
        light[j] = rows[:, 3] - p < 1e-10 * rows[:, 3]
        firsts[j] = rows[rng.integers(size)]
    total = light.sum(1)
    for k in range(size + 1):
        pk = math.comb(size, k) * prob**k * (1 - prob) ** (size - k)
        chernoff(mon, int((total == k).sum()), m, pk, f"samples with {k} massless particles", size=size, massless=prob)
    for j in range(size):
        chernoff(mon, int(light[:, j].sum()), m, prob, f"massless particles in position {j}", size=size)
        if size > 1:
            chernoff(mon, int((light[:, j] & light[:, j - 1]).sum()), m, prob**2, f"massless neighbours at position {j}", size=size)
    ks(mon, firsts[:, 3] / 10.0, "energy across seeds")
    ks(mon, np.arctan2(firsts[:, 1], firsts[:, 0]) / (2 * np.pi) + 0.5, "azimuth across seeds")
    ks(mon, (firsts[:, 2] / np.sqrt((firsts[:, :3] ** 2).sum(1)) + 1) / 2, "inclination across seeds")
    mon.obs("samples", m)
    mon.obs("ensembles")
    mon.sig(light, firsts)
    mon.sample(dict(size=size, samples=m, massless=prob))


def g_big(mon, rng, i):
    import graphicle as gcl

    n = 30000
    emax = float(10.0 ** (rng.uniform(-2, 3) if i % 4 else rng.uniform(-6, 8)))
    prob = [0.0, 1.0, 0.5, 0.1, 0.9, float(rng.random())][i % 6]
    if i % 3 == 2:
        prob = float(rng.choice([0.992, 0.995, 0.999, 0.9995, 0.008, 0.005, 0.001, 0.0005, 0.98, 0.02]))
        mon.obs("rare-prob")
    seed = int(rng.integers(0, 2**32))
    got = mon.call("from_spherical_uniform", gcl.MomentumArray.from_spherical_uniform, n, emax, prob, seed)
    rows = rows_of(got)
    k, light = physical(mon, rows, n, emax, prob)
    ue = np.asarray(k.e, float) / emax
    uc = np.asarray((k.z / k.p + 1) / 2, float)
    up = np.asarray(k.phi / (2 * np.pi) + 0.5, float)
    ks(mon, ue, "energy", massless=prob)
    ks(mon, uc, "cosine of inclination", massless=prob)
    ks(mon, up, "azimuth", massless=prob)
    for ax in (0, 1):  # any other axis sees the same isotropy
        ks(mon, (rows[:, ax] / np.asarray(k.p, float) + 1) / 2, "direction cosine", axis=ax)
    uncorrelated(mon, ue, uc, "energy and inclination")
    uncorrelated(mon, ue, up, "energy and azimuth")
    uncorrelated(mon, uc, up, "inclination and azimuth")
    lim = math.sqrt(math.log(2 / P) / (2 * n))
    frac = float(light.mean())
    mon.check(abs(frac - prob) < lim + 1e-3, "fraction of massless particles", got=frac, want=prob)
    if 0 < prob < 1:
        chernoff(mon, int(light.sum()), n, prob + (1 - prob) * 1e-5, "fraction of massless particles", massless=prob)
    heavy = ~light
    if heavy.sum() >= 1500:  # masses fill the range up to the energy, independently
        ratio = np.sqrt(np.maximum(np.asarray(k.m2, float), 0))[heavy] / np.asarray(k.e, float)[heavy]
        h = len(ratio)
        low, high = float(np.mean(ratio < 0.5)), float(np.mean(ratio > 0.8))
        mon.check(0.02 < low < 0.98 and high > 0.02, "masses are spread up to the energies", below_half=low, near_energy=high)
        ur = ranks(ratio)
        uncorrelated(mon, ur[:-1:2], ur[1::2], "mass fractions of neighbours", slack=2 / math.sqrt(h))
        for other, nm in ((uc, "inclination"), (up, "azimuth")):
            uncorrelated(mon, ur, other[heavy], f"mass fraction and {nm}", slack=2 / math.sqrt(h))
        mon.check(len(np.unique(ratio)) > 0.9 * h, "mass fractions repeat", distinct=len(np.unique(ratio)), n=h)
        mon.obs("mass-samples")
    if prob in (0.0,):
        mon.check(frac < 1e-3, "massless particles in a massive sample", got=frac)
    if 0.05 < frac < 0.95:
        for part, nm in ((light, "massless"), (~light, "massive")):
            ks(mon, ue[part], f"energy of {nm} particles")
            ks(mon, uc[part], f"inclination of {nm} particles")
            ks(mon, up[part], f"azimuth of {nm} particles")
    # so are samples of different seeds
    alt = rows_of(mon.call("from_spherical_uniform", gcl.MomentumArray.from_spherical_uniform, n, emax, prob, (seed + int(rng.choice([1, 2, 256, 65536]))) % 2**32))
    ka = kin.Kin(alt)
    ve, vc, vp = np.asarray(ka.e, float) / emax, np.asarray((ka.z / ka.p + 1) / 2, float), np.asarray(ka.phi / (2 * np.pi) + 0.5, float)
    for u, v, nm in ((ue, ve, "energies"), (uc, vc, "inclinations"), (up, vp, "azimuths")):
        uncorrelated(mon, u, v, f"{nm} of different seeds")
    # successive particles are independent
    uncorrelated(mon, ue[:-1:2], ue[1::2], "energies of neighbours")
    uncorrelated(mon, uc[:-1:2], uc[1::2], "inclinations of neighbours")
    uncorrelated(mon, up[:-1:2], up[1::2], "azimuths of neighbours")
    mon.obs("big-samples")
    mon.obs("samples")
    mon.sig(rows)


def g_vast(mon, rng, i):
    """Directions within narrow bands of energy and of one another, and how far the ranges reach."""
    import graphicle as gcl

    n = 400000
    emax = float(10.0 ** rng.uniform(-2, 3))
    prob = [0.0, 1.0, 0.5, float(10 ** rng.uniform(-4, -3)), 1 - float(10 ** rng.uniform(-4, -3))][i % 5]
    got = mon.call("from_spherical_uniform", gcl.MomentumArray.from_spherical_uniform, n, emax, prob, int(rng.integers(0, 2**32)))
    x, y, z, e = rows_of(got).T
    p = np.sqrt(x * x + y * y + z * z)
    light = int((e - p < 5e-11 * e).sum())
    if 0 < prob < 1:
        chernoff(mon, light, n, prob + (1 - prob) * 1e-5, "fraction of massless particles", massless=prob)
        mon.obs("rare-prob", int(min(prob, 1 - prob) < 0.01))
    u = dict(energy=e / emax, inclination=(z / p + 1) / 2, azimuth=np.arctan2(y, x) / (2 * np.pi) + 0.5)
    u["mass fraction"] = ranks(np.sqrt(np.maximum(e * e - p * p, 0)) / e)
    for a, va in u.items():
        if a == "mass fraction" and prob > 0:
            continue
        for lo, hi in ((0, 0.03), (0.03, 0.1), (0.1, 0.5), (0.5, 0.9), (0.9, 0.97), (0.97, 1.0)):
            band = (va >= lo) & (va <= hi)
            k = int(band.sum())
            mon.check(k > 0.8 * n * (hi - lo), f"{a} band is populated", lo=lo, hi=hi, got=k)
            for b, vb in u.items():
                if b == a or b == "mass fraction":
                    continue
                ks(mon, vb[band], f"{b} within {lo} to {hi} of the {a}", massless=prob)
                edge = math.log(2 / P) / k  # (1 - edge)^k < P / 2
                mon.check(vb[band].min() < edge and vb[band].max() > 1 - edge, f"{b} covers its range within {lo} to {hi} of the {a}",
                          lowest=float(vb[band].min()), highest=float(vb[band].max()), edge=edge)
                mon.obs("distribution-tests")
                mon.obs("bands")
    mon.obs("particles", n)
    mon.obs("samples")
    mon.sig(e[:100], prob)
    mon.sample(dict(size=n, emax=emax, massless=prob))


GROUPS = [("small", g_small, 150), ("big", g_big, 36), ("many", g_many, 6), ("vast", g_vast, 10)]
