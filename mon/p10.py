"""P10 event shapes."""
import itertools as it

import numpy as np

from . import core, gens

LD = np.longdouble
RULE = (
    "a case is one momentum set whose event shapes are compared with an exact "
    "(thrust, C-parameter) or dense-scan (spherocity) reference; non-trivial with "
    "at least two particles of non-zero momentum; distinct by momenta"
)
ASSUMPTIONS = [
    "the exact thrust maximum is enumerated over all sign patterns cut by planes through pairs of particles (n <= 24)",
    "one seed may stop at a local optimum; only the best over up to 160 seeds is held against the global reference (1e-5 thrust, 1e-4 + 0.1% spherocity)",
    "sets in which every particle is at rest, and empty sets, are outside the claim",
]
REQUIRED = {"thrust:axis": 300, "spherocity:axis": 300, "thrust:global": 50, "spherocity:global": 50,
            "c:value": 80, "invariance": 100, "at-rest": 20, "seed-zero": 3, "odd-energy": 60}


def vec(rows):
    return np.asarray(rows, LD)[:, :3]


def norm(v):
    return np.sqrt((v * v).sum(-1))


def thrust_at(rows, axis):
    p = vec(rows)
    return float(np.abs(p @ np.asarray(axis, LD)).sum() / norm(p).sum())


def spher_at(rows, axis):
    p = vec(rows)
    c = norm(np.cross(p, np.asarray(axis, LD)[None])).sum() / norm(p).sum()
    return float((4 / LD(np.pi) * c) ** 2)


def thrust_max(rows):
    p = np.asarray(rows, float)[:, :3]
    p = p[np.linalg.norm(p, axis=1) > 0]
    n = len(p)
    if n == 1:
        return 1.0
    ii, jj = np.triu_indices(n, 1)
    # a tiny jitter decides the signs of coplanar particles consistently
    mag = np.linalg.norm(p, axis=1, keepdims=True)
    jit = p + 1e-10 * mag * np.random.default_rng(3).normal(size=p.shape)
    s = np.sign(np.cross(jit[ii], jit[jj]) @ jit.T)
    s[np.arange(len(ii)), ii] = 0
    s[np.arange(len(ii)), jj] = 0
    base = s @ p
    best = 0.0
    for a, b in it.product((1, -1), repeat=2):
        best = max(best, float(np.linalg.norm(base + a * p[ii] + b * p[jj], axis=1).max()))
    return best / float(np.linalg.norm(p, axis=1).sum())


_GRID = None


def grid():
    global _GRID
    if _GRID is None:
        g = np.random.default_rng(77).normal(size=(3000, 3))
        _GRID = g / np.linalg.norm(g, axis=1)[:, None]
    return _GRID


def spher_scan(rows):
    p = np.asarray(rows, float)[:, :3]
    p = p[np.linalg.norm(p, axis=1) > 0]
    ax = np.concatenate([grid(), p / np.linalg.norm(p, axis=1)[:, None]])
    tot = np.linalg.norm(p, axis=1).sum()

    def value(a):
        return ((4 / np.pi) * np.linalg.norm(np.cross(p[None], a[:, None]), axis=2).sum(1) / tot) ** 2

    v = value(ax)
    best, at = v.min(), ax[v.argmin()]
    rng, scale = np.random.default_rng(5), 0.05
    for _ in range(8):  # local refinement around the best scanned axis
        a = at + rng.normal(0, scale, (60, 3))
        a /= np.linalg.norm(a, axis=1)[:, None]
        v = value(a)
        if v.min() < best:
            best, at = v.min(), a[v.argmin()]
        scale *= 0.5
    return float(best)


def c_exact(rows):
    p = vec(rows)
    m = norm(p)
    keep = np.asarray(m > 0)
    p, m = p[keep], m[keep]
    cr = np.cross(p[:, None], p[None])
    return float(1.5 * ((cr * cr).sum(-1) / (m[:, None] * m[None])).sum() / m.sum() ** 2)


def make(rng, big=False):
    import graphicle as gcl

    n = int(rng.integers(1, 22)) if not big else int(rng.integers(30, 200))
    kd = gens.kind(rng, beam=False)
    rows = gens.momenta(rng, n, kd)
    if rng.random() < 0.25:
        k = int(rng.integers(1, 4))
        rest = np.zeros((k, 4))
        rest[:, 3] = rng.uniform(0.1, 2, k)
        rows = np.concatenate([rows, rest])[rng.permutation(n + k)]
    elif rng.random() < 0.15:
        axis = rng.normal(size=3)
        f = rng.uniform(-3, 3, len(rows))
        rows[:, :3] = f[:, None] * axis
        rows[:, 3] = np.linalg.norm(rows[:, :3], axis=1) + 0.1
        kd = "pencil"
    elif rng.random() < 0.15:
        rows[:, 2] = 0.0
        kd = "planar"
    return rows, gcl.MomentumArray(rows.copy()), kd


def energies(rng, rows):
    """The same three-momenta with energies that mean nothing."""
    rows = rows.copy()
    n = len(rows)
    rows[:, 3] = rng.choice([0.0, -1.0, -1e3, 1e-9, 1e12, np.nan, np.inf], n) if rng.random() < 0.7 else -rows[:, 3]
    return rows


def shape(mon, which, p, seed, axis=True):
    import graphicle as gcl

    fn = getattr(gcl.calculate, which)
    return mon.call(which, fn, p, return_axis=axis, rng_seed=seed)


def checked(mon, which, p, rows, seed):
    """One optimised value, judged at the axis it came with."""
    out = shape(mon, which, p, seed)
    mon.check(isinstance(out, tuple) and len(out) == 2, which + ": value and axis")
    val, ax = out
    mon.check(np.shape(ax) == (3,) and abs(float(np.linalg.norm(ax)) - 1) < 1e-12, which + ": axis is a unit vector", axis=ax)
    at = thrust_at if which == "thrust" else spher_at
    want = at(rows, ax)
    rel = 1e-9 if which == "spherocity" else 1e-7
    # near-parallel axes lose digits in the cross product: one ulp of the norm
    mon.close(float(val), want, which + ": value at the returned axis", rtol=rel, atol=1e-14, rows=rows, axis=ax)
    mon.obs(which + ":axis")
    return float(val)


def best(mon, which, p, rows, seeds=12, start=0):
    pick = max if which == "thrust" else min
    return pick(checked(mon, which, p, rows, start + s) for s in range(seeds))


def reaches(mon, which, p, rows, ref, tol):
    """The best over seeds meets ``ref``; more seeds before any verdict."""
    got, total, start = best(mon, which, p, rows), 12, 12
    while (ref - got if which == "thrust" else got - ref) > tol and total < 160:
        new = best(mon, which, p, rows, 37, start)
        got = max(got, new) if which == "thrust" else min(got, new)
        total, start = total + 37, start + 37
    mon.obs(which + ":seeds", total)
    return got


def g_thrust(mon, rng, i):
    rows, p, kd = make(rng)
    ref = thrust_max(rows)
    got = reaches(mon, "thrust", p, rows, ref, 1e-5)
    mon.check(got <= ref + 1e-8, "thrust exceeds its exact maximum", got=got, ref=ref, rows=rows)
    mon.check(got >= ref - 1e-5, "thrust misses its maximum over every seed", got=got, ref=ref, rows=rows)
    mon.check(0.5 - 1e-9 <= got <= 1 + 1e-9, "thrust range", got=got)
    mon.obs("thrust:global")
    live = int((np.abs(rows[:, :3]).sum(1) > 0).sum())
    if live < len(rows):
        mon.obs("at-rest")
    mon.sig("thrust", rows, nontrivial=live > 1)
    mon.sample(f"thrust of {len(rows)} {kd} particles: best over seeds {got:.8f}, exact {ref:.8f}")


def g_spherocity(mon, rng, i):
    import graphicle as gcl

    rows, p, kd = make(rng)
    ref = spher_scan(rows)
    got = reaches(mon, "spherocity", p, rows, ref, 1e-4 + 1e-3 * ref)
    mon.check(got <= ref + 1e-4 + 1e-3 * ref, "spherocity misses its minimum over every seed", got=got, ref=ref, rows=rows)
    mon.check(-1e-12 <= got <= 1 + 1e-9, "spherocity range", got=got)
    mon.obs("spherocity:global")
    if i % 2 == 0:  # rotated event
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        turned = rows.copy()
        turned[:, :3] = rows[:, :3] @ q.T
        pt = gcl.MomentumArray(turned)
        again = reaches(mon, "spherocity", pt, turned, got, 1e-4 + 1e-3 * got)
        if again < got - (1e-4 + 1e-3 * got):
            got = reaches(mon, "spherocity", p, rows, again, 1e-4 + 1e-3 * again)
        mon.close(again, got, "best spherocity of a rotated event", rtol=2e-3, atol=2e-4, rows=rows)
        mon.obs("invariance")
    mon.sig("spherocity", rows, nontrivial=len(rows) > 1)
    mon.sample(f"spherocity of {len(rows)} {kd} particles: best over seeds {got:.8f}, scan {ref:.8f}")


def g_c(mon, rng, i):
    import graphicle as gcl

    rows, p, kd = make(rng, big=i % 5 == 0)
    got = mon.call("c_parameter", gcl.calculate.c_parameter, p)
    ref = c_exact(rows)
    mon.close(float(got), ref, "C-parameter", rtol=1e-11, atol=1e-12, rows=rows)
    mon.check(-1e-12 <= got <= 1 + 1e-12, "C-parameter range", got=got)
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    for what, other in (
        ("order", rows[rng.permutation(len(rows))]),
        ("scale", rows * 10.0 ** rng.uniform(-3, 3)),
        ("far scale", rows * 2.0 ** float(rng.integers(20, 90) * rng.choice([-1, 1]))),
        ("flip", rows * [-1, -1, -1, 1]),
        ("at rest", np.concatenate([rows, [[0, 0, 0, 1.0]]])),
        ("energies", energies(rng, rows)),
        ("rotation", np.column_stack([rows[:, :3] @ q.T, rows[:, 3]])),
    ):
        v = mon.call("c_parameter", gcl.calculate.c_parameter, gcl.MomentumArray(other))
        mon.obs("odd-energy", int(what == "energies"))
        mon.close(float(v), ref, "C-parameter under " + what, rtol=1e-11, atol=1e-12, rows=rows)
        mon.obs("invariance")
    mon.obs("c:value")
    mon.sig("c", rows, nontrivial=len(rows) > 1)
    mon.sample(f"C-parameter of {len(rows)} {kd} particles: {got:.8f}")


def g_invariance(mon, rng, i):
    import graphicle as gcl

    rows, p, kd = make(rng)
    which = ["thrust", "spherocity"][i % 2]
    seed = int([0, 1, 2**32 - 1, rng.integers(0, 2**32), rng.integers(0, 2**32)][(i // 2) % 5])
    v0 = checked(mon, which, p, rows, seed)
    state = np.random.get_state()[1].copy()
    np.random.seed(int(rng.integers(1 << 30)))
    mid = np.random.get_state()[1].copy()
    again = shape(mon, which, p, seed)
    mon.same(np.random.get_state()[1], mid, which + " touched the global random state")
    np.random.seed(1)
    del state
    mon.same(again[0], v0, which + " repeated with the same seed")
    mon.same(again[1], shape(mon, which, p, seed)[1], which + ": axis repeated with the same seed")
    mon.obs("repeated")
    mon.obs("seed-zero", int(seed == 0))
    mon.same(shape(mon, which, p.copy(), seed, axis=False), v0, which + " without its axis")
    fn = getattr(gcl.calculate, which)
    bare = mon.call(which, fn, p)
    mon.check(np.ndim(bare) == 0 and -1e-12 <= float(bare) <= (1 + 1e-9 if which == "thrust" else 1.7), which + " default call")
    other = [
        ("scale", rows * 2.0 ** int(rng.integers(-8, 9))),
        ("far scale", rows * 2.0 ** float(rng.integers(20, 90) * rng.choice([-1, 1]))),
        ("flip", rows * [-1, -1, -1, 1]),
        ("at rest", np.concatenate([rows, [[0, 0, 0, 1.0]]])),
        ("order", rows[rng.permutation(len(rows))]),
        ("energy", rows * [1, 1, 1, 3]),
        ("energies", energies(rng, rows)),
    ]
    for what, r in other:
        q = gcl.MomentumArray(r)
        v = checked(mon, which, q, r, seed)
        mon.obs("odd-energy", int(what == "energies"))
        if abs(v - v0) > 1e-6:
            # rounding may lead one seed elsewhere; the best must still agree
            a, b = (best(mon, which, z, zr, 40) for z, zr in ((p, rows), (q, r)))
            mon.close(b, a, f"{which} under {what}", rtol=2e-3, atol=2e-4, rows=rows)
            mon.obs("path-changed")
        mon.obs("invariance")
    mon.sig("inv", rows, which, nontrivial=len(rows) > 1)
    mon.sample(f"{which} of {len(rows)} {kd} particles, seed {seed}: {v0:.8f}")


GROUPS = [("thrust", g_thrust, 110), ("spherocity", g_spherocity, 110), ("c", g_c, 160), ("invariance", g_invariance, 60)]
