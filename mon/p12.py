"""P12 Jaccard distance."""
from fractions import Fraction

import numpy as np

from . import core, gens

RULE = (
    "a case is one to three masks (with or without weights) whose distances are "
    "recomputed in exact rational arithmetic; non-trivial when the union is not empty; "
    "distinct by masks and weights"
)
ASSUMPTIONS = ["weights are non-negative double precision arrays, possibly read-only or strided"]
REQUIRED = {"pairs": 1000, "weighted": 300, "empty-union": 30, "disjoint": 50, "identical": 50,
            "triangle": 300, "group-argument": 200, "read-only": 100, "zero-weight": 40, "scaled": 150, "many-particles": 8}


def exact(u, v, w=None):
    w = [Fraction(1)] * len(u) if w is None else [Fraction(float(x)) for x in w]
    union = sum((x for a, b, x in zip(u, v, w) if a or b), Fraction(0))
    diff = sum((x for a, b, x in zip(u, v, w) if bool(a) != bool(b)), Fraction(0))
    return (float(diff / union) if union else 0.0), union, diff


def dress(mon, rng, m):
    """The same mask as one of the accepted argument kinds."""
    import graphicle as gcl

    n = len(m)
    r = int(rng.integers(7))
    if r == 0:
        return m.copy()
    if r == 1:
        return gcl.MaskArray(m)
    if r == 2:
        ro = m.copy()
        ro.setflags(write=False)
        mon.obs("read-only")
        return ro
    if r == 3:
        big = np.zeros(2 * n, bool)
        big[::2] = m
        return big[::2]
    if r == 4:
        return np.ascontiguousarray(m[::-1])[::-1]
    mon.obs("group-argument")
    other = rng.random(n) < 0.5
    if r == 5:
        return gcl.MaskGroup({"a": m & other, "b": m & ~other}, "or")
    return gcl.MaskGroup({"a": m | other, "b": gcl.MaskGroup({"c": m, "d": m | ~other}, "and")}, "and")


def weights(mon, rng, n):
    r = int(rng.integers(8))
    if r == 0:
        return None
    if r >= 6:  # one common scale, anywhere in the range of a double
        w = rng.uniform(0.5, 1, n) * 10.0 ** rng.uniform(-200, 200)
        mon.obs("scaled")
    elif r == 1:
        w = np.ones(n)
    elif r == 2:
        w = rng.integers(0, 4, n).astype(float)
        mon.obs("zero-weight")
    elif r == 3:
        w = 10.0 ** rng.uniform(-6, 6, n)
    else:
        w = rng.uniform(0, 1, n)
        w[rng.random(n) < 0.2] = 0.0
    if rng.random() < 0.2:
        w.setflags(write=False)
    elif rng.random() < 0.2:
        big = np.zeros(3 * n + 1)
        big[1 : 3 * n + 1 : 3] = w
        w = big[1 : 3 * n + 1 : 3]
    return w


def masks(rng, n, k):
    base = rng.random(n) < rng.choice([0.0, 0.2, 0.5, 1.0])
    out = [base]
    for _ in range(k - 1):
        r = int(rng.integers(5))
        if r == 0:
            out.append(base.copy())
        elif r == 1:
            out.append(~base & (rng.random(n) < 0.7))
        elif r == 2:
            out.append(base & (rng.random(n) < 0.7))
        else:
            out.append(rng.random(n) < rng.choice([0.0, 0.2, 0.5, 0.9]))
    return [out[j] for j in rng.permutation(k)]


def g_pairs(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng, big=True) if rng.random() < 0.96 else int(rng.choice([1025, 2050, 4100, 9000]))
    mon.obs("many-particles", int(n > 1024))
    u, v = masks(rng, n, 2)
    w = weights(mon, rng, n)
    dist = gcl.calculate.jaccard_distance
    want, union, diff = exact(u, v, w)
    for a, b in ((u, v), (v, u)):
        args = (dress(mon, rng, a), dress(mon, rng, b))
        if w is None:
            got = mon.call("jaccard_distance", dist, *args)
        elif rng.random() < 0.5:
            got = mon.call("jaccard_distance", dist, *args, w)
        else:
            got = mon.call("jaccard_distance", dist, *args, weights=w)
        mon.check(np.ndim(got) == 0, "distance is a number", got=got)
        mon.close(float(got), want, "Jaccard distance", rtol=1e-12, atol=0, u=a, v=b, w=w)
        mon.check(0 <= got <= 1 + 1e-12, "range of the distance", got=got)
        mon.obs("pairs")
        if diff == 0:
            mon.check(got == 0.0, "masks agreeing on all weight are at distance zero", got=got)
        else:
            mon.check(got > 0.0, "masks that differ are at a positive distance", got=got)
    if w is not None:
        mon.obs("weighted")
    if union == 0:
        mon.obs("empty-union")
    elif diff == union:
        mon.obs("disjoint")
    if np.array_equal(u, v):
        mon.obs("identical")
    plain = mon.call("jaccard_distance", dist, u, v)
    unit = mon.call("jaccard_distance", dist, u, v, np.ones(n))
    mon.close(float(unit), float(plain), "unit weights equal no weights", rtol=1e-14)
    mon.sig(u, v, None if w is None else np.array(w), nontrivial=union != 0)
    mon.sample(f"masks of {n} ({int(u.sum())}, {int(v.sum())} set), weighted={w is not None}: {want:.6f}")


def g_triangle(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 12))
    trio = masks(rng, n, 3)
    w = weights(mon, rng, n)
    dist = gcl.calculate.jaccard_distance
    d = {}
    for a in range(3):
        for b in range(3):
            d[a, b] = float(mon.call("jaccard_distance", dist, dress(mon, rng, trio[a]), dress(mon, rng, trio[b]), w))
    for a in range(3):
        mon.check(d[a, a] == 0.0, "distance of a mask to itself", got=d[a, a])
        for b in range(3):
            mon.close(d[a, b], d[b, a], "symmetry", rtol=1e-13)
            for c in range(3):
                mon.check(d[a, c] <= d[a, b] + d[b, c] + 1e-12, "triangle inequality", masks=trio, w=w)
                mon.obs("triangle")
    mon.sig("tri", *[m.tolist() for m in trio], None if w is None else np.array(w))
    mon.sample(f"three masks of {n}: distances {d[0,1]:.4f} {d[1,2]:.4f} {d[0,2]:.4f}")


GROUPS = [("pairs", g_pairs, 800), ("triangle", g_triangle, 150)]
