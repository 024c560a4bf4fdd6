"""P11 aggregation of momenta."""
import numpy as np

from . import core, gens, kin

LD = np.longdouble
EPS = kin.EPS
RULE = (
    "a case is one momentum set with cluster masks or weights; non-trivial with at "
    "least one particle in some cluster; distinct by momenta, masks and weights"
)
ASSUMPTIONS = [
    "sums may be taken in any order: tolerance is n ulp of the sum of magnitudes",
    "weights are given as (n, 4), (n, 1) or structured arrays, as documented",
    "the weighted centroid is only judged for sets without beam-parallel particles",
]
REQUIRED = {"aggregate": 200, "far-forward": 10, "partition": 50, "empty-cluster": 30, "mass:plain": 40, "mass:weighted": 100,
            "mass:zero": 20, "mass:many": 5, "centroid": 150, "resultant": 150, "centroid-half-turn": 6, "idle-energy": 30, "weights:narrow": 20}


def table(p):
    d = np.array(p.data)
    return np.column_stack([d[c] for c in "xyze"]).reshape(-1, 4)


def sums(rows):
    a = np.asarray(rows, LD).reshape(-1, 4)
    tol = np.asarray((len(a) + 4) * 2 * EPS * np.abs(a).sum(0), float)
    return a.sum(0), tol


def as_mask(rng, m, n):
    import graphicle as gcl

    r = int(rng.integers(4))
    if r == 0:
        return m.copy()
    if r == 1:
        return gcl.MaskArray(m)
    if r == 2:
        cut = rng.random(n) < 0.5
        return gcl.MaskGroup({"a": m & cut, "b": m & ~cut}, "or")
    return gcl.MaskArray([bool(v) for v in m])


def g_aggregate(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng, big=True) if rng.random() < 0.95 else int(rng.choice([260, 1030, 5000]))
    kd = gens.kind(rng)
    rows = gens.momenta(rng, n, kd)
    if rng.random() < 0.2:  # some members without a component or two
        for c in range(4):
            rows[rng.random(n) < 0.3, c] = 0.0
        rows[rng.random(n) < 0.2] *= -1.0
        mon.obs("idle-energy")
    p = gcl.MomentumArray(gens.layout_2d(rng, rows, list("xyze"), "<f8", alt=gens.PMU_ALT)[0])
    k = int(rng.integers(0, 7))
    part = rng.random() < 0.4 and k > 0
    if part:
        lab = rng.integers(0, k, n)
        masks = [lab == j for j in range(k)]
    else:
        masks = [rng.random(n) < rng.choice([0, 0.3, 0.8, 1.0]) for _ in range(k)]
    wrapped = [as_mask(rng, m, n) for m in masks]
    form = int(rng.integers(4))
    if form == 0:
        arg = wrapped
    elif form == 1:
        arg = tuple(wrapped)
    elif form == 2:
        arg = iter(wrapped)
    else:
        arg = gcl.MaskGroup({f"c{j}": w for j, w in enumerate(wrapped)}, "or").values()
    out = mon.call("aggregate_momenta", gcl.calculate.aggregate_momenta, p, arg, pure=False)
    mon.check(isinstance(out, gcl.MomentumArray) and len(out) == k, "one aggregate per cluster", got=len(out), want=k)
    mon.same(table(p), rows, "momenta after aggregation")
    t = table(out)
    for j, m in enumerate(masks):
        want, tol = sums(rows[m])
        mon.close(t[j], want, "aggregate of a cluster", rtol=1e-14, atol=tol, cluster=j)
        if not m.any():
            mon.obs("empty-cluster")
    if part:
        mon.obs("partition")
        want, tol = sums(rows)
        mon.close(np.asarray(t, LD).sum(0), want, "aggregates of a partition add up", rtol=1e-14, atol=2 * tol)
        if k:
            total = mon.call("aggregate_momenta", gcl.calculate.aggregate_momenta, p, [np.ones(n, bool)])
            mon.close(table(total)[0], want, "aggregate of everything", rtol=1e-14, atol=tol)
    s = mon.call("np.sum", np.sum, p, axis=0)
    want, tol = sums(rows)
    mon.check(isinstance(s, gcl.MomentumArray) and len(s) == 1, "sum of momenta is one momentum")
    mon.close(table(s)[0], want, "sum of momenta", rtol=1e-14, atol=tol)
    mon.obs("aggregate")
    mon.sig(rows, [m.tolist() for m in masks], nontrivial=any(m.any() for m in masks))
    mon.sample(f"{n} {kd} momenta into {k} clusters (partition={part})")


def g_mass(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng) if rng.random() < 0.93 else int(rng.choice([130, 260, 520, 1500, 5000]))
    mon.obs("mass:many", int(n > 100))
    kd = gens.kind(rng)
    rows = gens.momenta(rng, n, kd)
    if n and rng.random() < 0.15:  # space-like total
        rows[:, 3] *= 0.3
    p = gcl.MomentumArray(rows.copy())
    r = int(rng.integers(6))
    w = None
    if r == 1:
        w = rng.uniform(0, 2, (n, 4))
    elif r == 2:
        w = rng.uniform(0, 2, (n, 1))
    elif r == 3:
        w = rng.uniform(0, 2, (n, 4))
    elif r == 4:
        w = (rng.random((n, 1)) < 0.5) * np.ones((1, 4))
    elif r == 5:  # weights in some narrower type
        kind = rng.choice(["<f4", "<f2", "<i4", "<i1", "?"])
        w = (rng.uniform(0, 3, (n, int(rng.choice([1, 4])))) if kind[1:2] == "f" else rng.integers(0, 3, (n, 4))).astype(kind)
        mon.obs("weights:narrow")
    given = w
    if r == 3:
        given = np.zeros(n, dtype=[(c, "<f8") for c in "xyze"])
        for j, c in enumerate("xyze"):
            given[c] = w[:, j]
    if given is not None and rng.random() < 0.3:
        given = given.copy()
        given.setflags(write=False)
    src = p if rng.random() < 0.7 else np.array(p.data)
    args = (src,) if given is None else (src, given)
    got = mon.call("combined_mass", gcl.calculate.combined_mass, *args)
    eff = np.asarray(rows, LD) * (1 if w is None else np.asarray(w, LD))
    s = eff.sum(0) if n else np.zeros(4, LD)
    m2 = float(s[3] ** 2 - (s[:3] ** 2).sum())
    mag = np.asarray(np.abs(eff).sum(0), float) if n else np.zeros(4)
    tol = 16 * (n + 4) * EPS * float((mag**2).sum()) + 1e-300
    mon.check(np.ndim(got) == 0 and np.isfinite(got) and got >= 0, "combined mass is a non-negative number", got=got)
    if m2 <= tol:
        mon.check(float(got) ** 2 <= max(m2, 0) + tol, "combined mass of a light- or space-like sum", got=got, m2=m2, rows=rows)
        mon.obs("mass:zero")
        if m2 < -tol:
            mon.check(float(got) == 0.0, "space-like sum has zero mass", got=got, m2=m2)
    else:
        mon.close(float(got) ** 2, m2, "combined mass squared", rtol=1e-11, atol=tol, rows=rows, w=w)
    mon.obs("mass:plain" if w is None else "mass:weighted")
    if w is None and n:
        s1 = np.sum(p, axis=0)
        with core.quiet():
            mon.close(max(float(s1.mass[0]), 0) ** 2, max(m2, 0), "mass of the summed momentum", rtol=1e-11, atol=4 * tol)
    mon.sig("mass", rows, w, nontrivial=n > 0)
    mon.sample(f"combined mass of {n} {kd} momenta, weights {None if w is None else given.dtype.names or w.shape}: {float(got):.6g}")


def g_coords(mon, rng, i):
    import graphicle as gcl

    n = max(1, gens.size(rng))
    kd = gens.kind(rng, beam=False)
    rows = gens.momenta(rng, n, kd)
    p = gcl.MomentumArray(rows.copy())
    pseudo = bool(rng.random() < 0.5)
    kw = {"pseudo": pseudo} if rng.random() < 0.7 or not pseudo else {}
    if i % 12 == 0:  # exactly opposite to the x axis
        rows = rows[: int(rng.integers(1, 4))]
        rows[:, 1], rows[:, 0] = 0.0, -np.abs(rows[:, 0]) - rows[:, 3]
        rows[:, 3] = np.sqrt((rows[:, :3] ** 2).sum(axis=1)) * float(rng.choice([1.0, 1.5]))
        p = gcl.MomentumArray(rows.copy())
    elif i % 12 == 5:  # far forward
        eta = rng.uniform(6, 16, n) * (rng.choice([-1, 1]) if rng.random() < 0.5 else rng.choice([-1, 1], n))
        pt = np.hypot(rows[:, 0], rows[:, 1]) + 1e-3
        ph = rng.uniform(-3, 3, n)
        z = pt * np.sinh(eta)
        rows = np.column_stack([pt * np.cos(ph), pt * np.sin(ph), z, np.sqrt(pt**2 + z**2 + rng.choice([0.0, 0.14, 5.0], n) ** 2)])
        pseudo, kw = True, {}
        p = gcl.MomentumArray(rows.copy())
        mon.obs("far-forward")
    k = kin.Kin(rows)
    rap = k.eta if pseudo else k.rap
    got = mon.call("weighted_centroid", gcl.calculate.weighted_centroid, p, **kw)
    mon.check(isinstance(got, tuple) and len(got) == 2, "centroid is a pair")
    w = k.pt / k.pt.sum()
    tol = float(((k.eta_tol() if pseudo else k.rap_tol()) * w).sum()) + 1e-12
    mon.close(got[0], float((rap * w).sum()), "centroid rapidity", rtol=1e-12, atol=tol, rows=rows, pseudo=pseudo)
    dphi = float(kin.wrap(LD(got[1]) - (k.phi * w).sum()))
    # an azimuth of exactly -pi/+pi may be reported with either sign
    if np.all(np.abs(np.abs(k.phi) - np.pi) > 1e-12):
        mon.check(abs(dphi) < 1e-11, "centroid azimuth", got=got[1], rows=rows)
        mon.obs("centroid")
    elif np.all(np.abs(k.phi - np.pi) < 1e-12):
        mon.check(abs(dphi) < 1e-11, "centroid azimuth of momenta at half a turn", got=got[1], rows=rows)
        mon.obs("centroid-half-turn")
    mon.check(abs(got[1]) <= np.pi + 1e-12, "centroid azimuth range", got=got[1])
    res = mon.call("resultant_coords", gcl.calculate.resultant_coords, p, **kw)
    s, tol4 = sums(rows)
    ks = kin.Kin(s)
    if float(ks.pt[0]) > 1e-6 * float(k.pt.sum()) and float(ks.pt[0]) > 1e-8:
        want = float((ks.eta if pseudo else ks.rap)[0])
        amp = float(tol4.sum()) / float(ks.diff[0] if not pseudo else ks.pt[0])
        # relative rounding of the sum moves (pseudo)rapidity by about tol/diff
        if amp < 1e-3:
            t = float((ks.eta_tol() if pseudo else ks.rap_tol())[0]) + 4 * amp
            mon.close(res[0], want, "resultant rapidity", rtol=1e-12, atol=t, rows=rows, pseudo=pseudo)
            d = float(kin.wrap(LD(res[1]) - ks.phi[0]))
            mon.check(abs(d) < 1e-11 + 4 * float(tol4.sum()) / float(ks.pt[0]), "resultant azimuth", got=res[1], want=float(ks.phi[0]))
            mon.obs("resultant")
    mon.sig("coords", rows, pseudo)
    mon.sample(f"{n} {kd} momenta: centroid {got}, resultant {res}")


GROUPS = [("aggregate", g_aggregate, 350), ("mass", g_mass, 400), ("coords", g_coords, 350)]
