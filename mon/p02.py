"""P02 selection commutes with components and keeps rows aligned."""
import numpy as np

from . import core, gens, spec

RULE = (
    "a case is one container or composite record subjected to a chain of one to "
    "three subscripts; non-trivial when at least one row existed before the last "
    "subscript; distinct by values and key contents"
)
ASSUMPTIONS = ["lists used as keys of mask groups are lists of names, as documented"]
REQUIRED = {
    "key:int": 20, "key:slice": 20, "key:bool-array": 20, "key:int-list": 10, "key:bool-list": 5,
    "key:int-array": 10, "key:none-mask": 5, "key:all-mask": 5, "key:MaskArray": 20,
    "key:MaskGroup-or": 10, "key:MaskGroup-and": 10, "row-alignment": 200, "refused": 500, "far-positions": 120,
}


def key(rng, n):
    """(key given to the library, plain numpy key, label)"""
    import graphicle as gcl

    r = rng.random()
    if r < 0.62:
        return gens.keys_for(rng, n)
    m = rng.random(n) < rng.choice([0.0, 0.3, 0.6, 1.0])
    if r < 0.78:
        return gcl.MaskArray(m), m, "MaskArray"
    k = int(rng.integers(1, 4))
    ms = [rng.random(n) < rng.choice([0.3, 0.6, 0.9]) for _ in range(k)]
    agg = str(rng.choice(["or", "and"]))
    grp = gcl.MaskGroup({f"m{j}": gcl.MaskArray(a) for j, a in enumerate(ms)}, agg)
    plain = (np.logical_or if agg == "or" else np.logical_and).reduce(ms)
    if rng.random() < 0.3:
        grp = gcl.MaskGroup({"in": grp, "b": gcl.MaskArray(m)}, "or")
        return grp, plain | m, "MaskGroup-or"
    return grp, plain, "MaskGroup-" + agg


def as_rows(vals, k):
    out = vals[k]
    return out.reshape((-1,) + vals.shape[1:])


def compare(mon, sp, obj, want, what):
    mon.check(isinstance(obj, sp.cls), what + ": type", got=type(obj))
    mon.check(len(obj) == len(want), what + ": length", got=len(obj), want=len(want))
    if len(want) or sp.cols == 1:
        mon.same(spec.table(sp, obj), want, what)
        got = [tuple(e) if sp.cols > 1 else e for e in obj]
        mon.check(got == spec.rows(want), what + ": iteration", got=got, want=want)


def g_containers(mon, rng, i):
    sps = list(spec.specs().values())
    sp = sps[i % len(sps)]
    n = gens.size(rng, big=True)
    vals = spec.values(rng, sp, n)
    obj = sp.cls(spec.layout(rng, sp, vals)[0])
    w = None
    if sp.name == "edges" and rng.random() < 0.5:
        w = rng.normal(size=n)
        obj = sp.cls(vals, w.copy())
    if sp.name == "pmu" and rng.random() < 0.5:
        with core.quiet():
            _ = (obj.eta, obj.pt, obj.phi)
    labs = []
    for step in range(int(rng.integers(1, 4))):
        k, pk, lab = key(rng, len(vals))
        labs.append(lab)
        mon.obs("key:" + lab)
        before = core.snap(obj)
        got = mon.call(f"{sp.name}[{lab}]", lambda o, k: o[k], obj, k)
        mon.check(core.snap(obj) == before, "subscripting changed the source")
        vals = as_rows(vals, pk)
        compare(mon, sp, got, vals, f"{sp.name}[{'>'.join(labs)}]")
        if w is not None:
            w = np.atleast_1d(w[pk])
            mon.same(got.weights, w, f"edge weights after {labs}")
        if sp.name == "pmu":
            mon.close(got.pt, np.hypot(vals[:, 0], vals[:, 1]), "pt of the selection", rtol=1e-9)
        obj = got
    mon.sig(sp.name, labs, vals, nontrivial=n > 0)
    mon.sample(f"{sp.name} n={n} keys={labs}")


def g_composites(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    rec = spec.record(rng, n, weights=rng.random() < 0.6)
    sps = {s.part: s for s in spec.specs().values()}
    graph = i % 2 == 0
    if not graph:
        rec.pop("edges", None)
        rec.pop("weights", None)
    rec = {k: np.array(v) for k, v in rec.items()}
    comp = (gcl.Graphicle if graph else gcl.ParticleSet).from_numpy(**{k: v.copy() for k, v in rec.items()})
    empty = not (set(rec) - {"weights"})
    labs = []
    for step in range(int(rng.integers(1, 4))):
        m = 0 if empty else len(next(v for k, v in rec.items() if k != "weights"))
        k, pk, lab = key(rng, m)
        if empty or m == 0:  # nothing to select from: stays empty
            k = pk = np.zeros(0, bool)
            lab = "none-mask"
        labs.append(lab)
        mon.obs("key:" + lab)
        before = core.snap(comp)
        got = mon.call(f"composite[{lab}]", lambda o, k: o[k], comp, k)
        mon.check(core.snap(comp) == before, "subscripting changed the source")
        mon.check(type(got) is type(comp), "type of a composite selection")
        rec = {kk: (np.atleast_1d(v[pk]) if v.ndim == 1 else as_rows(v, pk)) for kk, v in rec.items()}
        for part in spec.PARTS + (("edges",) if graph else ()):
            sp = sps[part]
            sub = got.adj if part == "edges" else getattr(got, part)
            if part in rec:
                compare(mon, sp, sub, rec[part], f"composite[{'>'.join(labs)}].{part}")
            else:
                mon.check(len(sub) == 0, f"empty component {part} became populated")
        if "weights" in rec and len(rec["edges"]):
            mon.same(got.adj.weights, rec["weights"], "composite edge weights")
        mon.obs("row-alignment")
        comp = got
    mon.sig(graph, sorted(rec), labs, n, *[rec[k] for k in sorted(rec)], nontrivial=n > 0 and not empty)
    mon.sample(f"{'Graphicle' if graph else 'ParticleSet'} {sorted(rec)} n={n} keys={labs}")
    mon.state("shape", (graph, tuple(sorted(rec)), tuple(labs)[:2]))


def g_groups(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)

    def tree(depth):
        out = {}
        for j in range(int(rng.integers(1, 4))):
            if depth and rng.random() < 0.4:
                out[f"g{j}"] = tree(depth - 1)
            else:
                out[f"m{j}"] = rng.random(n) < 0.5
        return out

    def build(t):
        return gcl.MaskGroup({k: build(v) if isinstance(v, dict) else gcl.MaskArray(v.copy()) for k, v in t.items()}, str(agg))

    def sub(t, pk):
        return {k: sub(v, pk) if isinstance(v, dict) else np.atleast_1d(v[pk]) for k, v in t.items()}

    def judge(grp, t, what):
        mon.check(isinstance(grp, gcl.MaskGroup), what + ": type")
        mon.check(list(grp) == list(t), what + ": names", got=list(grp), want=list(t))
        mon.check(grp.agg_op.value == agg, what + ": aggregation setting")
        for k, v in t.items():
            if isinstance(v, dict):
                judge(grp[k], v, what + "." + k)
            else:
                mon.check(isinstance(grp[k], gcl.MaskArray), what + ": leaf type")
                mon.same(grp[k].data, v, what + "." + k)

    agg = rng.choice(["and", "or", "none"])
    t = tree(2)
    grp = build(t)
    labs = []
    for step in range(int(rng.integers(1, 3))):
        m = n if step == 0 else m2
        k, pk, lab = key(rng, m)
        if isinstance(k, list):
            k = np.array(k)
        labs.append(lab)
        mon.obs("key:" + lab)
        got = mon.call(f"group[{lab}]", lambda o, k: o[k], grp, k)
        t = sub(t, pk)
        judge(got, t, f"group[{'>'.join(labs)}]")
        grp = got
        m2 = len(np.atleast_1d(np.zeros(m)[pk]))
    mon.sig("group", n, labs, repr(t), nontrivial=n > 0)
    mon.sample(f"mask group n={n} keys={labs}")


def g_index_errors(mon, rng, i):
    """Out-of-range selections are refused rather than misaligned."""
    import graphicle as gcl

    n = int(rng.integers(1, 10))
    rec = spec.record(rng, n, subset=["pdg", "pmu", "final", "edges"])
    g = gcl.Graphicle.from_numpy(**rec)
    wrong = np.ones(n + int(rng.integers(1, 4)), bool)
    mon.raises("mask of the wrong length", lambda: g[wrong])
    mon.raises("index past the end", lambda: g[n])
    mon.raises("index past the start", lambda: g.particles[-n - 1])
    # every container refuses what numpy refuses
    for sp in spec.specs().values():
        obj = sp.cls(spec.values(rng, sp, n))
        m = int(rng.choice([1, max(n - 1, 1), n + 1, n + 2, 2 * n]))
        m += m == n
        bad = rng.random(m) < 0.5
        past = int(rng.choice([n, n + 1, 2 * n, -n - 1, -2 * n - 1]))
        at = int(rng.integers(-n, n))
        keys = {
            "boolean array": bad, "mask": gcl.MaskArray(bad),
            "mask group": gcl.MaskGroup({"a": gcl.MaskArray(bad), "b": gcl.MaskArray(bad)}, ["and", "or"][rng.integers(2)]),
            "integer": past, "integer list": [at, past], "integer array": np.array([past, at]),
        }
        keys["boolean list"] = bad.tolist()
        for lab, k in keys.items():
            mon.raises(f"{lab} out of place", lambda: obj[k], types=(IndexError, ValueError))
            mon.obs("refused")
    grp = gcl.MaskGroup({"a": gcl.MaskArray(rng.random(n) < 0.5), "b": gcl.MaskGroup({"c": gcl.MaskArray(rng.random(n) < 0.5)})})
    mon.raises("mask of the wrong length on a group", lambda: grp[wrong], types=(IndexError, ValueError))
    mon.sig(n, len(wrong))


def g_far(mon, rng, i):
    """Positions far into long records, given in every way."""
    import graphicle as gcl

    n = int(rng.choice([33_000, 66_000, 140_000]))
    rec = {k: np.array(v) for k, v in spec.record(rng, n, weights=True).items()} if i % 3 == 0 else None
    sps = list(spec.specs().values())
    sp = sps[i % len(sps)]
    vals = spec.values(rng, sp, n)
    obj = sp.cls(vals.copy())
    comp = gcl.Graphicle.from_numpy(**{k: v.copy() for k, v in rec.items()}) if rec else None
    k = int(rng.integers(1, 40))
    at = rng.integers(0, n, k)
    at[: k // 2 + 1] = n - 1 - rng.integers(0, 500, k // 2 + 1)
    at = at[rng.permutation(k)]
    neg = np.where(rng.random(k) < 0.3, at - n, at)
    m = np.zeros(n, bool)
    m[at] = True
    a, b = sorted(at[:2].tolist()) if k > 1 else (int(at[0]), n)
    keys = [
        (neg.tolist(), neg, "int-list"), (neg, neg, "int-array"), (int(neg[0]), int(neg[0]), "int"),
        (m, m, "bool-array"), (m.tolist(), m, "bool-list"), (gcl.MaskArray(m), m, "MaskArray"),
        (gcl.MaskGroup({"a": m, "b": ~m & False}, "or"), m, "MaskGroup-or"),
        (slice(int(b), int(a) - n - 1 if a == 0 else int(a), -7), slice(int(b), int(a) - n - 1 if a == 0 else int(a), -7), "slice"),
        (at.astype(np.uint32), at, "int-array"),
    ]
    for key, pk, lab in keys:
        got = mon.call(f"{sp.name}[{lab}]", lambda o, k: o[k], obj, key)
        compare(mon, sp, got, as_rows(vals, pk), f"{sp.name} of {n}[{lab}]")
        mon.obs("far-positions")
        if comp is not None:
            sub = mon.call(f"composite[{lab}]", lambda o, k: o[k], comp, key)
            by = {s.part: s for s in sps}
            for part, v in rec.items():
                if part == "weights":
                    mon.same(sub.adj.weights, np.atleast_1d(v[pk]), "composite edge weights")
                else:
                    one = sub.adj if part == "edges" else getattr(sub, part)
                    mon.check(len(one) == len(as_rows(v, pk)), f"length of composite {part}")
                    mon.same(spec.table(by[part], one), as_rows(v, pk), f"composite of {n}[{lab}].{part}")
    mon.sig(sp.name, n, at)
    mon.sample(f"{sp.name} of {n} rows, {k} positions")


GROUPS = [
    ("far", g_far, 16),
    ("containers", g_containers, 1000),
    ("composites", g_composites, 700),
    ("groups", g_groups, 250),
    ("index_errors", g_index_errors, 30),
]
