"""P28 event ingestion."""
import collections
import types

import numpy as np

from . import core, event, gens

RULE = (
    "a case is one source object (a subset of event attributes in random layouts, or a Les Houches record) turned into an "
    "event and compared attribute by attribute with the data it was given; non-trivial when it has particles; distinct by "
    "content and attribute subset"
)
ASSUMPTIONS = ["attributes, when present, hold arrays of one length; a 'masks' attribute is a mapping"]
REQUIRED = {"events": 250, "attributes-taken": 800, "attributes-absent": 300, "final-fallback": 30, "final-preferred": 15,
            "lhe": 120, "lhe-codes": 1000, "lhe-unmapped": 100, "source-checked": 350, "all-subsets": 100, "no-final-mask": 10, "weights-taken": 50, "lhe-long": 6}
ATTRS = ("pdg", "pmu", "color", "helicity", "status", "final", "edges")
LHE = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
FIELDS = dict(pmu=(list("xyze"), "<f8", gens.PMU_ALT), color=(["color", "anticolor"], "<i4", None), edges=(["src", "dst"], "<i4", gens.EDGE_ALT))
WIDTH = dict(pdg="<i4", helicity="<i2", status="<i2", final="?")


def values(rng, n):
    return dict(
        pdg=rng.choice([21, 1, -1, 2, 5, -5, 11, -12, 2212, 211, -211], n),
        pmu=rng.normal(size=(n, 4)) * 50,
        color=rng.integers(0, 600, (n, 2)),
        helicity=rng.integers(-1, 10, n),
        status=rng.integers(-99, 99, n),
        final=rng.random(n) < 0.5,
        edges=rng.integers(-500, 500, (n, 2)),
    )


def dress(rng, key, v):
    """an ndarray in some layout an event source could hold"""
    if key in FIELDS:
        names, dt, alt = FIELDS[key]
        v = np.asarray(v, dt)
        r = rng.integers(5)
        if r == 0:
            out = v.copy()
        elif r == 1:
            out = np.asfortranarray(v)
        elif r == 2:
            out = np.repeat(v, 2, axis=0)[::2]
        else:
            out, _ = gens.structured(rng, v, names, dt, permute=bool(rng.integers(2)), alt=alt)
    else:
        v = np.asarray(v, WIDTH[key])
        r = rng.integers(4)
        if r == 0:
            out = v.copy()
        elif r == 1:
            out = np.repeat(v, 3)[::3]
        elif r == 2:
            out = v.astype("<i8") if key != "final" else v.copy()
        else:
            out = v.copy()
    if rng.random() < 0.25:
        out = out.copy()
        out.flags.writeable = False
    return out


def table(arr, key):
    a = np.asarray(arr)
    if a.dtype.names:
        if key in FIELDS:
            names, _, alt = FIELDS[key]
            cols = []
            for nm in names:
                opts = (alt or {}).get(nm, (nm,))
                cols.append(next(a[o] for o in opts if o in a.dtype.names))
            a = np.stack(cols, axis=-1)
    return a


def part(g, key):
    obj = g.edges if key == "edges" else getattr(g, key)
    return table(getattr(obj, "data", obj), key)


class Lazy:
    """attributes computed on access, absent ones raise"""

    def __init__(self, have):
        object.__setattr__(self, "_have", have)

    def __getattr__(self, name):
        have = object.__getattribute__(self, "_have")
        if name in have:
            return have[name]
        raise AttributeError(name)


def wrap(rng, have):
    r = rng.integers(5)
    if r == 0:
        return types.SimpleNamespace(**have)
    if r == 1:
        return Lazy(have)
    if r == 2:
        return collections.namedtuple("Ev", list(have))(**have)
    if r == 3:
        ns = {"__slots__": tuple(have)}
        obj = type("Slotted", (), ns)()
        for k, v in have.items():
            setattr(obj, k, v)
        return obj
    ns = {k: property(lambda self, v=v: v) for k, v in have.items()}
    return type("Props", (), ns)()


def expect(mon, g, vals, keys, n):
    import graphicle as gcl

    cls = dict(pdg=gcl.PdgArray, pmu=gcl.MomentumArray, color=gcl.ColorArray, helicity=gcl.HelicityArray, status=gcl.StatusArray, final=gcl.MaskArray)
    for key in ATTRS:
        if key != "edges":
            mon.check(isinstance(getattr(g, key), cls[key]), f"{key} component type", got=type(getattr(g, key)))
        got = part(g, key)
        if key in keys:
            mon.same(got, vals[key], f"{key} as ingested")
            mon.obs("attributes-taken")
        else:
            mon.check(got.shape[0] == 0, f"{key} was not given and must be empty", got=got.shape)
            mon.obs("attributes-absent")


def ingest(mon, rng, keys, n):
    import graphicle as gcl

    vals = values(rng, n)
    have = {k: dress(rng, k, vals[k]) for k in keys}
    extra = rng.random() < 0.4
    taken = set(keys)
    source = dict(have)
    if "final" not in keys and rng.random() < 0.5:
        f = vals["final"].copy()
        masks = [{"final": f}, {"other": ~f, "final": f}, gcl.MaskGroup({"final": gcl.MaskArray(f)})][rng.integers(3)]
        source["masks"] = masks
        taken.add("final")
        mon.obs("final-fallback")
    elif "final" not in keys and rng.random() < 0.3:
        source["masks"] = [{}, {"other": vals["final"].copy()}, gcl.MaskGroup({"other": vals["final"].copy()})][rng.integers(3)]
        mon.obs("no-final-mask")
    elif "final" in keys and rng.random() < 0.3:
        source["masks"] = {"final": ~vals["final"]}
        mon.obs("final-preferred")
    if extra:
        source.update(weights_=np.ones(n), number=3, scale="x", count=None)
    if not source:
        source["nothing"] = 1
    obj = wrap(rng, source)
    before = {k: v.copy() for k, v in have.items()}
    g = mon.call("from_event", gcl.Graphicle.from_event, obj)
    mon.check(isinstance(g, gcl.Graphicle), "event type")
    expect(mon, g, vals, taken, n)
    for k, v in have.items():
        mon.check(v.tobytes() == before[k].tobytes() and v.dtype == before[k].dtype and getattr(obj, k) is v, f"source {k} untouched")
    mon.obs("source-checked")
    if taken:
        mon.check(len(g) == n, "event length", got=len(g), want=n)
    # the same source gives the same event again
    again = mon.call("from_event", gcl.Graphicle.from_event, obj)
    expect(mon, again, vals, taken, n)
    # straight from arrays, with weights
    kw = dict(have)
    if "edges" in keys and rng.random() < 0.5:
        kw["weights"] = [rng.random(n), np.ones(n), np.zeros(n), rng.integers(0, 2, n).astype(float), -rng.random(n)][rng.integers(5)]
        mon.obs("weights-taken")
    g2 = mon.call("from_numpy", gcl.Graphicle.from_numpy, **kw)
    expect(mon, g2, vals, set(keys), n)
    if "weights" in kw:
        mon.same(g2.adj.weights, kw["weights"], "edge weights as ingested")
    kw = {k: v for k, v in have.items() if k != "edges"}
    ps = mon.call("ParticleSet.from_numpy", gcl.ParticleSet.from_numpy, **kw)
    for key in ATTRS[:-1]:
        got = table(getattr(ps, key).data, key)
        if key in keys:
            mon.same(got, vals[key], f"{key} of the particle set")
        else:
            mon.check(got.shape[0] == 0, f"{key} was not given and must be empty", got=got.shape)
    mon.obs("events")
    mon.sig(sorted(taken), *[vals[k] for k in sorted(taken)], nontrivial=n > 0 and bool(taken))
    mon.sample(dict(n=n, attrs=sorted(taken), source=type(obj).__name__))


def g_subsets(mon, rng, i):
    keys = [k for j, k in enumerate(ATTRS) if i >> j & 1]
    ingest(mon, rng, keys, int(rng.integers(1, 9)))
    mon.obs("all-subsets")


def g_event(mon, rng, i):
    keys = [k for k in ATTRS if rng.random() < 0.7]
    ingest(mon, rng, keys, int(rng.choice([0, 1, 2, 40, 300])))


def g_lhe(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 2, 5, 12, 40])) if rng.random() < 0.9 else int(rng.choice([150, 700, 3000]))
    vals = values(rng, n)
    codes = list(LHE) if rng.random() < 0.5 else list(LHE) + [0, -3, 9, 4, 21, -21, 23, -23, 22, -22, -12, 12, 10, 100, 62, 101, -101, 102, 201, -109, 1001, 129, -127, 258, 257, 1026]
    vals["status"] = rng.choice(codes, n)
    if rng.random() < 0.25:  # mostly the one code
        vals["status"] = np.where(rng.random(n) < 0.95, rng.choice(list(LHE)), vals["status"])
    mon.obs("lhe-long", int(n > 100))
    keys = ("pdg", "pmu", "color", "helicity", "status")
    have = {k: dress(rng, k, vals[k]) for k in keys}
    source = dict(have)
    if rng.random() < 0.3:  # unrelated or misleading extras
        source["final"] = np.ones(n, bool)
        source["edges"] = np.zeros((n, 2), "<i4")
    obj = wrap(rng, source)
    before = {k: v.copy() for k, v in have.items()}
    got = mon.call("from_lhe_event", gcl.ParticleSet.from_lhe_event, obj)
    mon.check(isinstance(got, gcl.ParticleSet) and len(got) == n, "Les Houches particle set", got=type(got))
    for key in ("pdg", "pmu", "color", "helicity"):
        mon.same(table(getattr(got, key).data, key), vals[key], f"{key} from the Les Houches record")
    mon.same(got.status.data, [LHE.get(int(s), int(s)) for s in vals["status"]], "translated statuses", source=vals["status"])
    mon.check(got.final.data.dtype == bool and got.final.data.tolist() == [False] * n, "nothing is final", got=got.final.data)
    for k, v in have.items():
        mon.check(v.tobytes() == before[k].tobytes() and v.dtype == before[k].dtype and getattr(obj, k) is v, f"source {k} untouched")
    mon.obs("source-checked")
    again = mon.call("from_lhe_event", gcl.ParticleSet.from_lhe_event, obj)
    mon.same(again.status.data, got.status.data, "second translation")
    # using the result must not reach the source
    if n:
        got.status.data[...] = 7
        mon.check(have["status"].tobytes() == before["status"].tobytes(), "writing translated statuses reached the source")
        third = mon.call("from_lhe_event", gcl.ParticleSet.from_lhe_event, obj)
        mon.same(third.status.data, again.status.data, "translation after writing to an earlier result")
    mon.obs("lhe")
    mon.obs("lhe-codes", n)
    mon.obs("lhe-unmapped", int(sum(int(s) not in LHE for s in vals["status"])))
    mon.sig(*[vals[k] for k in keys], nontrivial=n > 0)


GROUPS = [("subsets", g_subsets, 128, "once"), ("event", g_event, 160), ("lhe", g_lhe, 180)]
