"""Reference description of the seven containers, and record generators."""
import numpy as np

from . import gens


class Spec:
    def __init__(self, name, cls, dtype, cols, fields, alt, part):
        self.name, self.cls = name, cls
        self.dtype, self.cols = np.dtype(dtype), cols
        self.fields, self.alt, self.part = fields, alt, part


_SPECS = None


def specs():
    global _SPECS
    if _SPECS is None:
        import graphicle as gcl

        _SPECS = {
            s.name: s
            for s in (
                Spec("mask", gcl.MaskArray, "?", 1, None, None, "final"),
                Spec("pdg", gcl.PdgArray, "<i4", 1, None, None, "pdg"),
                Spec("helicity", gcl.HelicityArray, "<i2", 1, None, None, "helicity"),
                Spec("status", gcl.StatusArray, "<i2", 1, None, None, "status"),
                Spec("pmu", gcl.MomentumArray, "<f8", 4, tuple("xyze"), gens.PMU_ALT, "pmu"),
                Spec("color", gcl.ColorArray, "<i4", 2, ("color", "anticolor"), None, "color"),
                Spec("edges", gcl.AdjacencyList, "<i4", 2, ("src", "dst"), gens.EDGE_ALT, "edges"),
            )
        }
    return _SPECS


def values(rng, sp, n):
    """Plain array of values for spec ``sp``: (n,) or (n, cols)."""
    shape = (n,) if sp.cols == 1 else (n, sp.cols)
    if sp.dtype.kind == "b":
        return rng.random(n) < rng.choice([0.0, 0.3, 0.7, 1.0])
    if sp.dtype.kind == "f":
        out = gens.momenta(rng, n, gens.kind(rng))
        if n and rng.random() < 0.3:  # plain numbers survive whatever they mean
            k = int(rng.integers(1, n * 4 + 1))
            flat = out.reshape(-1)
            flat[rng.integers(0, flat.size, k)] = rng.choice(
                [0.0, -0.0, 5e-324, 1e-300, -1e300, 1.7e308, np.inf, -np.inf, 0.1, 1 / 3], k
            )
        return out
    info = np.iinfo(sp.dtype)
    r = rng.random()
    if r < 0.4:
        return rng.integers(-30, 31, shape).astype(sp.dtype)
    if r < 0.6:
        return rng.integers(-3, 4, shape).astype(sp.dtype)
    out = rng.integers(info.min, info.max, shape, endpoint=True).astype(sp.dtype)
    if out.size:
        flat = out.reshape(-1)
        flat[rng.integers(0, flat.size)] = rng.choice([info.min, info.max, 0])
    return out


def layout(rng, sp, vals):
    if sp.cols == 1:
        return gens.layout_1d(rng, vals, sp.dtype)
    return gens.layout_2d(rng, vals, sp.fields, sp.dtype, sp.alt)


def table(sp, obj):
    """Plain values held by container ``obj`` through its public data."""
    data = np.array(obj.data)
    if sp.cols == 1:
        return data
    return np.column_stack([data[f] for f in data.dtype.names]).reshape(-1, sp.cols)


def rows(vals):
    """Row values as plain Python, tuples for multi-column."""
    return [tuple(r) if isinstance(r, list) else r for r in np.asarray(vals).tolist()]


PARTS = ("pdg", "pmu", "color", "helicity", "status", "final")


def record(rng, n, subset=None, weights=False):
    """Plain arrays for a random record; keys are from_numpy arguments."""
    sps = {s.part: s for s in specs().values()}
    names = list(PARTS) + ["edges"]
    if subset is None:
        subset = [k for k in names if rng.random() < 0.7]
    out = {}
    for k in names:
        if k in subset:
            out[k] = gens.dag(rng, n) if k == "edges" and rng.random() < 0.7 else values(rng, sps[k], n)
    if "edges" in out and weights:
        out["weights"] = rng.normal(size=n)
    return out
