"""P09 inter-particle distances."""
import os

import numpy as np

from . import core, gens, kin

LD = np.longdouble
RULE = (
    "a case is one pair of particle sets whose distance matrix is recomputed in "
    "extended precision; non-trivial when it has an off-diagonal entry; distinct by momenta"
)
ASSUMPTIONS = [
    "entries between two particles parallel to the beam on the same side are only compared between self and copy",
    "tolerance is 1e-12 plus a few ulp of the (pseudo)rapidities; true rapidities are compared where E-|z| exceeds ten times the documented zero tolerance",
]
REQUIRED = {"variant": 30, "wide": 8, "pair-entries": 20000, "self-entries": 20000, "infinite-entries": 200, "wrapped-entries": 1000,
            "threads>1": 60, "overlapping-views": 200, "rapidity:true": 100, "rapidity:pseudo": 100}


def expected(a, b, pseudo):
    ka, kb = kin.Kin(a), kin.Kin(b)
    ra, rb = (ka.eta, kb.eta) if pseudo else (ka.rap, kb.rap)
    if pseudo:
        ta, tb = ka.eta_tol(), kb.eta_tol()
    else:
        ta, tb = ka.rap_tol(), kb.rap_tol()
    with np.errstate(all="ignore"):
        dr = ra[:, None] - rb[None, :]
        raw = ka.phi[:, None] - kb.phi[None, :]
        dp = kin.wrap(raw)
        out = np.hypot(dr, dp)
    vague = np.asarray(np.isnan(dr))
    # azimuth of zero pt is meaningless
    za, zb = np.asarray(ka.pt == 0), np.asarray(kb.pt == 0)
    vague |= (za[:, None] | zb[None, :]) & np.asarray(np.isfinite(dr))
    vague |= np.asarray((ka.diff[:, None] < 1e-9) & (ka.diff[:, None] != 0)) if not pseudo else False
    vague |= np.asarray((kb.diff[None, :] < 1e-9) & (kb.diff[None, :] != 0)) if not pseudo else False
    tol = ta[:, None] + tb[None, :]
    return np.asarray(out, float), np.asarray(tol, float), vague, int((np.abs(raw) > np.pi).sum())


def compare(mon, got, a, b, pseudo, what):
    want, tol, vague, wrapped = expected(a, b, pseudo)
    mon.check(isinstance(got, np.ndarray) and got.shape == (len(a), len(b)), what + ": matrix shape", shape=np.shape(got))
    mon.check(got.dtype == np.float64, what + ": dtype", dtype=got.dtype)
    mon.close(got[~vague], want[~vague], what, rtol=1e-12, atol=tol[~vague])
    mon.check(not np.isnan(got).any(), what + ": not-a-number distance")
    mon.obs("wrapped-entries", wrapped)
    mon.obs("infinite-entries", int(np.isinf(want[~vague]).sum()))
    return want


def make(rng, n=None):
    import graphicle as gcl

    n = gens.size(rng, big=True) if n is None else n
    kd = gens.kind(rng)
    rows = gens.momenta(rng, n, kd)
    if n > 2 and rng.random() < 0.2:  # repeated particles
        rows[rng.integers(n)] = rows[rng.integers(n)]
    src, how = gens.layout_2d(rng, rows, list("xyze"), "<f8", alt=gens.PMU_ALT)
    return rows, gcl.MomentumArray(src), kd


def g_pair(mon, rng, i):
    import graphicle as gcl

    a, pa, ka = make(rng)
    b, pb, kb = make(rng)
    if rng.random() < 0.3:  # the second set is the first, but for one respect
        how = ["turned", "boosted", "mirrored", "reordered", "scaled", "heavier", "last", "one"][rng.integers(8)]
        b = a.copy()
        if how == "turned":
            c, s = np.cos(rng.uniform(0.1, 6)), np.sin(rng.uniform(0.1, 6))
            c, s = c / np.hypot(c, s), s / np.hypot(c, s)
            b[:, 0], b[:, 1] = c * a[:, 0] - s * a[:, 1], s * a[:, 0] + c * a[:, 1]
        elif how == "boosted":
            y = float(rng.uniform(-2, 2))
            b[:, 3], b[:, 2] = np.cosh(y) * a[:, 3] + np.sinh(y) * a[:, 2], np.cosh(y) * a[:, 2] + np.sinh(y) * a[:, 3]
        elif how == "mirrored":
            b[:, rng.integers(3)] *= -1.0
        elif how == "reordered":
            b = b[rng.permutation(len(b))]
        elif how == "scaled":
            b *= 2.0
        elif how == "heavier":
            b[:, 3] *= 1.5
        elif len(b):
            b[-1 if how == "last" else rng.integers(len(b)), :2] *= -1.0
        pb, kb = gcl.MomentumArray(b.copy()), f"{ka} {how}"
        mon.obs("variant")
    pseudo = bool(rng.random() < 0.5)
    mon.obs("rapidity:" + ("pseudo" if pseudo else "true"))
    kw = {} if (pseudo and rng.random() < 0.5) else {"pseudo": pseudo}
    t = core.threads(rng)
    if rng.random() < 0.5:
        kw["threads"] = t
    if kw.get("threads", 1) > 1:
        mon.obs("threads>1")
    got = mon.call("delta_R", pa.delta_R, pb, **kw)
    compare(mon, got, a, b, pseudo, "distance")
    mon.obs("pair-entries", got.size)
    kw2 = dict(kw, threads=core.threads(rng))
    back = mon.call("delta_R", pb.delta_R, pa, **kw2)
    mon.close(back.T, got, "swapping the arguments transposes", rtol=1e-13, atol=1e-13)
    again = mon.call("delta_R", pa.delta_R, pb, **kw2)
    mon.same(again, got, "distance repeated with another thread count")
    # subsets and orders of particles give the same entries
    ia = rng.permutation(len(a))[: rng.integers(0, len(a) + 1)]
    ib = rng.permutation(len(b))[: rng.integers(0, len(b) + 1)]
    sub = mon.call("delta_R", pa[ia].delta_R, pb[ib], **kw)
    mon.close(sub, got[np.ix_(ia, ib)], "distances of reordered particles", rtol=1e-13, atol=1e-13)
    mon.sig(a, b, pseudo, nontrivial=len(a) * len(b) > 0)
    mon.sample(f"{len(a)} {ka} against {len(b)} {kb}, {kw}")


def g_wide(mon, rng, i):
    """A few particles against thousands."""
    a, pa, ka = make(rng, int(rng.integers(1, 4)))
    b, pb, kb = make(rng, int(rng.choice([1023, 1024, 2049, 3000, 4097, 6001])))
    pseudo = bool(rng.random() < 0.5)
    turn = bool(rng.random() < 0.3)
    if turn:
        a, pa, b, pb = b, pb, a, pa
    t = core.threads(rng)
    got = mon.call("delta_R", pa.delta_R, pb, pseudo=pseudo, threads=t)
    compare(mon, got, a, b, pseudo, "distance")
    mon.obs("wide")
    mon.sig(a, b, pseudo)
    mon.sample(f"{len(a)} against {len(b)}, pseudo={pseudo}")


def g_self(mon, rng, i):
    import graphicle as gcl

    a, p, kd = make(rng)
    n = len(a)
    pseudo = bool(rng.random() < 0.5)
    mon.obs("rapidity:" + ("pseudo" if pseudo else "true"))
    t = core.threads(rng)
    if t > 1:
        mon.obs("threads>1")
    got = mon.call("delta_R self", p.delta_R, p, pseudo=pseudo, threads=t)
    compare(mon, got, a, a, pseudo, "self distance")
    mon.obs("self-entries", got.size)
    mon.same(np.diag(got), np.zeros(n), "diagonal of a self distance")
    mon.same(got, got.T, "symmetry of a self distance")
    for t2 in (1, int(rng.integers(2, 9))):
        mon.same(mon.call("delta_R self", p.delta_R, p, pseudo=pseudo, threads=t2), got, "self distance with another thread count")
    other = [p.copy, lambda: p[:], lambda: gcl.MomentumArray(a)][rng.integers(3)]()
    dup = mon.call("delta_R copy", p.delta_R, other, pseudo=pseudo, threads=t)
    mon.close(dup, got, "set compared with an equal copy", rtol=1e-12, atol=1e-12)
    if pseudo:
        aff = mon.call("delta_R_aff", gcl.matrix.delta_R_aff, p)
        mon.close(aff, got, "delta_R_aff", rtol=1e-12, atol=1e-12)
    perm = rng.permutation(n)
    q = p[perm]
    mon.close(mon.call("delta_R self", q.delta_R, q, pseudo=pseudo), got[np.ix_(perm, perm)], "self distance of reordered particles", rtol=1e-12, atol=1e-12)
    mon.sig("self", a, pseudo, nontrivial=n > 1)
    mon.sample(f"{n} {kd} against itself, pseudo={pseudo}, threads={t}")


def g_overlap(mon, rng, i):
    """Two sets holding views of the same memory are still two sets."""
    import graphicle as gcl

    n = int(rng.integers(2, 40))
    rows = gens.momenta(rng, n, gens.kind(rng))
    p = gcl.MomentumArray(rows.copy())
    pseudo = bool(rng.random() < 0.5)
    t = core.threads(rng)
    keys = [
        (slice(None, -1), slice(1, None)), (slice(None), slice(None, None, -1)), (slice(None, n // 2), slice(n // 2, 2 * (n // 2))),
        (slice(None), slice(None)), (slice(0, None, 2), slice(1, None, 2)), (slice(None, -1), slice(None, -1)), (slice(None), slice(None, -1)),
        (slice(None, 0, -1), slice(1, None)),
    ]
    for ka, kb in keys:
        a, b = p[ka], p[kb]
        if rng.random() < 0.5:
            with core.quiet():
                _ = (a.eta, b.rapidity)
        got = mon.call("delta_R", a.delta_R, b, pseudo=pseudo, threads=t)
        compare(mon, got, rows[ka], rows[kb], pseudo, f"distance of views [{ka}] and [{kb}]")
        mon.obs("overlapping-views")
    # one buffer, two containers
    shared = rows.copy()
    a, b = gcl.MomentumArray(shared), gcl.MomentumArray(shared[::-1])
    compare(mon, mon.call("delta_R", a.delta_R, b, pseudo=pseudo), rows, rows[::-1], pseudo, "distance of two containers on one array")
    # a set, moved between two calls
    d0 = mon.call("delta_R", a.delta_R, a, pseudo=pseudo)
    a += np.array([[1.0, -0.5, 0.25, 2.0]])
    moved = rows + np.array([[1.0, -0.5, 0.25, 2.0]])
    if np.isfinite(d0).all():
        other = gcl.MomentumArray(rows.copy())
        compare(mon, mon.call("delta_R", a.delta_R, other, pseudo=pseudo), moved, rows, pseudo, "distance of a moved set")
    mon.sig("overlap", rows, pseudo)
    mon.sample(f"{len(keys)} pairs of views of one set of {n}")


def g_metric(mon, rng, i):
    """Rotation and boost invariance of the distances the library reports."""
    n = int(rng.integers(2, 20))
    rows = gens.momenta(rng, n, ["collider", "massless", "jets", "heavy", "hard"][i % 5])
    import graphicle as gcl

    p = gcl.MomentumArray(rows)
    s, y = float(rng.uniform(-4, 4)), float(rng.uniform(-1.5, 1.5))
    d0 = mon.call("delta_R self", p.delta_R, p, pseudo=False)
    d1 = p.shift_phi(s).delta_R(p.shift_phi(s), pseudo=False)
    d2 = p.shift_rapidity(y)
    d2 = d2.delta_R(d2, pseudo=False)
    k = kin.Kin(rows)
    tol = (k.shifted_tol("rap")[:, None] + k.shifted_tol("rap")[None]) * 64 * np.cosh(y) ** 2 + 1e-11
    mon.close(d1, d0, "distance after a common rotation", rtol=0, atol=tol)
    mon.close(d2, d0, "rapidity distance after a common boost", rtol=0, atol=tol)
    mon.sig("metric", rows, s, y)


GROUPS = [("pair", g_pair, 260), ("wide", g_wide, 8), ("self", g_self, 260), ("metric", g_metric, 100), ("overlap", g_overlap, 60)]
