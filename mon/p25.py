"""P25 pruning, overlap and colour-singlet queries."""
import itertools as it

import numpy as np

from . import core, event, gens, kin

LD = np.longdouble
RULE = (
    "a case is one pruning, overlap or colour-singlet query answered again particle by particle or pair by pair; "
    "non-trivial when the pruning both keeps and drops, some masks are not empty, or some parton is coloured; distinct by "
    "the data and request"
)
ASSUMPTIONS = [
    "particles within 1e-11 of the radius are not judged; the resultant of the set must have a transverse momentum above "
    "1e-6 of the summed magnitude",
    "each colour-singlet leaf contains exactly one outgoing parton",
    "a pair or triple is a singlet when the set of colours equals the set of anticolours",
]
REQUIRED = {"prune": 200, "kept": 500, "dropped": 500, "across-branch-cut": 50, "prior-mask": 80, "centre:given": 60, "centre:zero": 20, "centre:turns": 10, "exact-rim": 20, "equal-colours": 20,
            "centre:resultant": 60, "overlap-true": 60, "overlap-false": 60, "pairs": 60, "triples": 40, "outcasts": 60,
            "singlet-queries": 100, "overlap-nested": 30, "open-ends": 100, "overlap-many": 5, "event-singlets": 20, "negative-tags": 40}


def eta_phi(rows):
    k = kin.Kin(rows)
    return k.eta, k.phi, np.asarray(k.eta_tol())


def g_prune(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([1, 2, 6, 20, 60]))
    r = rng.random()
    if r < 0.5:  # a spray, often astride the branch cut
        phi0 = float(rng.choice([np.pi, -np.pi, rng.uniform(-np.pi, np.pi)]))
        eta0 = float(rng.uniform(-2, 2))
        pt = 10 ** rng.uniform(-1, 2, n)
        eta, phi = eta0 + rng.normal(0, 0.5, n), phi0 + rng.normal(0, 0.5, n)
        x, y, z = pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta)
        rows = np.column_stack([x, y, z, np.sqrt(x * x + y * y + z * z + rng.choice([0, 0.02], n))])
    else:
        rows = gens.momenta(rng, n, rng.choice(["collider", "branch", "jets", "massless", "heavy", "beam", "soft"]))
    src, _ = gens.layout_2d(rng, rows, list("xyze"), "<f8", alt=gens.PMU_ALT)
    pmu = gcl.MomentumArray(src)
    prior = None
    kw = {}
    if rng.random() < 0.5:
        prior = rng.random(n) < rng.choice([0.3, 0.7, 1.0])
        if not prior.any():
            prior[rng.integers(n)] = True
        kw["mask"] = gcl.MaskArray(prior)
        mon.obs("prior-mask")
    sel = np.arange(n) if prior is None else np.flatnonzero(prior)
    eta, phi, tol = eta_phi(rows)
    if rng.random() < 0.5:
        near = int(rng.integers(n))
        e0 = float(eta[near]) if np.isfinite(eta[near]) else 0.0
        c = (e0 + float(rng.normal(0, 0.3)), float(rng.choice([float(phi[near]), np.pi, -np.pi, rng.uniform(-np.pi, np.pi)])))
        z = rng.random()
        if z < 0.25:  # the origin, and points of its axes
            c = [(0.0, 0.0), (0, 0), (0.0, c[1]), (c[0], 0.0), (-0.0, 0.0)][rng.integers(5)]
            mon.obs("centre:zero")
        elif z < 0.45:  # the same point a few turns on
            c = (c[0], c[1] + 2 * np.pi * float(rng.choice([-2, -1, 1, 2, 7])))
            mon.obs("centre:turns")
        kw["centre"] = c
        ce, cp, ctol = LD(c[0]), LD(c[1]), 1e-12
        mon.obs("centre:given")
    else:
        tot = rows[sel].astype(LD).sum(axis=0)
        k = kin.Kin(tot)
        if float(k.pt[0]) < 1e-6 * float(np.abs(rows[sel, :3]).sum()) or abs(float(k.eta[0])) > 8:
            mon.obs("no-resultant")
            return
        ce, cp = k.eta[0], k.phi[0]
        ctol = 1e-8
        mon.obs("centre:resultant")
    with np.errstate(all="ignore"):
        raw = phi - kin.wrap(np.asarray(cp, LD).reshape(1))[0]
        d = np.hypot(eta - ce, kin.wrap(raw))
    d[np.isinf(np.asarray(eta, float))] = np.inf
    fin = np.asarray(d[np.isfinite(d)], float)
    radius = float(rng.choice([0.2, 0.4, 1.0, 3.0])) if rng.random() < 0.5 or not len(fin) else float(rng.choice(fin) * (1 + rng.choice([-1, 1]) * rng.choice([1e-4, 1e-7, 1e-9])))
    sharp = False
    if rng.random() < 0.05:
        radius, sharp = 0.0, True  # nothing is strictly within
        mon.obs("exact-rim")
    got = mon.call("centroid_prune", gcl.select.centroid_prune, pmu, radius, **kw)
    mon.check(isinstance(got, gcl.MaskArray) and len(got) == n and got.data.dtype == bool, "pruned mask over the record", got=got, n=n)
    want = np.asarray(d < radius)
    vague = np.asarray(np.abs(d - radius) <= np.maximum(ctol + tol, 1e-11)) & (not sharp)
    want = want & (not sharp)
    if prior is not None:
        want = want & prior
        vague &= prior
    mon.check(bool((got.data == want)[~vague].all()), "pruned particles", got=got.data, want=want, radius=radius, kw=kw, d=np.asarray(d, float))
    mon.obs("prune")
    mon.obs("kept", int(want.sum()))
    mon.obs("dropped", int(len(sel) - want.sum()))
    mon.obs("across-branch-cut", int((np.asarray(np.abs(raw) > np.pi) & want).sum()))
    mon.sig(rows, radius, repr(kw.get("centre")), prior if prior is not None else 0, nontrivial=0 < want.sum() < len(sel))
    mon.sample(dict(n=n, radius=radius, centre=kw.get("centre"), kept=int(want.sum())))
    if rng.random() < 0.2:
        mon.raises("centroid_prune type", gcl.select.centroid_prune, rows, radius)


def g_rim(mon, rng, i):
    """particles at exactly the radius are not within it"""
    import graphicle as gcl

    n = int(rng.integers(1, 12))
    mag = 2.0 ** rng.integers(-4, 5, n)
    spot = rng.integers(0, 3, n)
    rows = np.column_stack([np.array([(1.0, 0, 0), (0, 1.0, 0), (0, -1.0, 0)])[spot] * mag[:, None], 2 * mag])
    kw = {}
    prior = rng.random(n) < 0.7
    if rng.random() < 0.4:
        kw["mask"] = gcl.MaskArray(prior)
    else:
        prior[:] = True
    got = mon.call("centroid_prune", gcl.select.centroid_prune, gcl.MomentumArray(rows), float(np.pi / 2), centre=(0.0, 0.0), **kw)
    mon.same(got.data, (spot == 0) & prior, "particles at the radius", rows=rows)
    mon.obs("exact-rim", int((spot != 0).sum()))
    mon.sig(rows, prior)


def g_overlap(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 3, 20, 80]))
    k = int(rng.integers(1, 7)) if rng.random() < 0.95 else int(rng.choice([12, 40, 70]))
    mon.obs("overlap-many", int(k > 6))
    masks = [np.zeros(n, bool) for _ in range(k)]
    for j in range(n):  # start exclusive
        w = int(rng.integers(-1, k))
        if w >= 0:
            masks[w][j] = True
    if n and k > 1 and rng.random() < 0.5:  # plant exactly one shared particle
        a, b = rng.choice(k, 2, replace=False)
        j = int(rng.choice([0, n - 1, rng.integers(n)]))
        masks[a][j] = masks[b][j] = True
    group, flat = {}, []
    for j, m in enumerate(masks):
        if rng.random() < 0.25:  # nested group whose union is the mask
            part = rng.random(n) < 0.5
            group[f"m{j}"] = gcl.MaskGroup({"a": gcl.MaskArray(m & part), "b": gcl.MaskArray(m & ~part)}, agg_op="or")
            mon.obs("overlap-nested")
        else:
            group[f"m{j}"] = gcl.MaskArray(m)
    mg = gcl.MaskGroup(group, agg_op=["or", "and"][rng.integers(2)])
    want = any(bool((a & b).any()) for a, b in it.combinations(masks, 2))
    got = mon.call("any_overlap", gcl.select.any_overlap, mg)
    mon.check(isinstance(got, (bool, np.bool_)), "overlap answer type", got=type(got))
    mon.check(bool(got) == want, "overlap", got=got, want=want, masks=masks)
    mon.obs("overlap-true" if want else "overlap-false")
    mon.sig(*masks, nontrivial=any(m.any() for m in masks))


def judge_singlets(mon, leaves, status, color, cols):
    """cols: leaf name -> (colour, anticolour)"""
    import graphicle as gcl

    keys = [k for k, c in cols.items() if c != (0, 0)]
    want = []
    for size in (2, 3):
        for combo in it.combinations(keys, size):
            if {cols[c][0] for c in combo} == {cols[c][1] for c in combo}:
                want.append(tuple(sorted(combo)))
    got = mon.call("color_singlets", gcl.select.color_singlets, leaves, status, color)
    mon.check(isinstance(got, list) and all(isinstance(t, tuple) for t in got), "singlets are tuples")
    mon.check(sorted(tuple(sorted(t)) for t in got) == sorted(want), "colour singlets", got=got, want=want, cols=cols)
    kw = {"invert": False}
    again = mon.call("color_singlets", gcl.select.color_singlets, leaves, status, color, **kw)
    mon.check(sorted(again) == sorted(got), "colour singlets repeat")
    out = mon.call("color_singlets", gcl.select.color_singlets, leaves, status, color, invert=True)
    inside = set(it.chain.from_iterable(want))
    mon.check(sorted(out) == sorted((k,) for k in keys if k not in inside), "partons in no singlet", got=out, want=[k for k in keys if k not in inside], cols=cols)
    mon.obs("singlet-queries")
    mon.obs("pairs", sum(len(t) == 2 for t in want))
    mon.obs("triples", sum(len(t) == 3 for t in want))
    mon.obs("outcasts", len(out))
    return bool(keys)


def g_singlets(mon, rng, i):
    import graphicle as gcl

    # colour flow: chains closed into singlets, open ends, neutrals
    flows, c = [], 500
    for _ in range(int(rng.integers(1, 4))):
        r = rng.integers(8)
        c += 10
        if r == 0:
            flows += [(c, 0), (0, c)]
        elif r == 1:
            flows += [(c, 0), (c + 1, c), (0, c + 1)]
        elif r == 2:
            flows += [(c, c + 1), (c + 1, c)]
        elif r == 3:
            flows += [(c, 0), (c + 1, c), (c + 2, c + 1), (0, c + 2)]  # four: beyond a triple
        elif r == 4:
            flows += [[(c, 0)], [(0, c)], [(c, c + 1)], [(c, c + 1), (c + 1, 0)]][rng.integers(4)]
        elif r == 7:  # partons of equal colours
            flows += [(c, 0), (0, c)] * int(rng.integers(1, 3)) + [[(c, 0)], [(0, c)], [(c, c + 1), (c + 1, c), (c + 1, c)]][int(rng.integers(3))]
            mon.obs("equal-colours")
        elif r == 6:  # many open ends
            k = int(rng.integers(3, 15))
            flows += [[(c * 7 + j, 0), (0, c * 7 + j)][int(rng.integers(2))] for j in range(k)]
            mon.obs("open-ends", k)
        else:
            flows += [(0, 0)] * int(rng.integers(1, 3))
    if rng.random() < 0.25:  # tags of either sign
        sign = -1 if rng.random() < 0.5 else None
        flip = {t: sign or int(rng.choice([-1, 1])) for fl in flows for t in fl}
        flows = [tuple(int(t * flip[t]) for t in fl) for fl in flows]
        mon.obs("negative-tags", sum(min(fl) < 0 for fl in flows))
    order = rng.permutation(len(flows))
    flows = [flows[j] for j in order]
    n = len(flows) * 4 + int(rng.integers(0, 10))
    status = rng.choice([1, 2, -51, 62, 71, 83, 84, -21, 22, -22, 24], n)
    color = rng.choice([0, 0, 101, 102, 511, 512], (n, 2))
    place = rng.permutation(n)[: len(flows)]
    group, cols = {}, {}
    for j, (row, fl) in enumerate(zip(place, flows)):
        status[row] = int(rng.choice([23, -23]))
        color[row] = fl
    for j, (row, fl) in enumerate(zip(place, flows)):
        m = (rng.random(n) < 0.3) & (np.abs(status) != 23)
        m[row] = True
        name = f"p{j}:{rng.integers(100)}"
        group[name] = gcl.MaskArray(m)
        cols[name] = tuple(int(v) for v in fl)
    # a status-23 particle outside every leaf must not matter
    leaves = gcl.MaskGroup(group, agg_op="or")
    any_col = judge_singlets(mon, leaves, gcl.StatusArray(status), gcl.ColorArray(color), cols)
    mon.sig(status, color, place, nontrivial=any_col)
    mon.sample(cols)


def g_event(mon, rng, i):
    import graphicle as gcl

    ev = event.Event(rng)
    g = ev.graph()
    rows, desc, parent = ev.hard_parents()
    names = dict(zip(rows, ev.hard_names(rows, event.name_table())))
    hier = mon.call("hierarchy", gcl.select.hierarchy, g)
    leaves = mon.call("leaf_masks", gcl.select.leaf_masks, hier)
    byname = {nm: r for r, nm in names.items()}
    st = np.abs(np.asarray(ev.status).astype(int))
    cols = {}
    for key, m in leaves.items():
        mine = np.flatnonzero(np.asarray(m.data) & (st == 23))
        if len(mine) != 1:
            mon.obs("leaf-without-single-outgoing")
            return
        cols[key] = tuple(int(v) for v in ev.color[mine[0]])
    if judge_singlets(mon, leaves, g.status, g.color, cols):
        mon.obs("event-singlets")
    mon.sig(ev.color, ev.status)


GROUPS = [("prune", g_prune, 350), ("rim", g_rim, 30), ("overlap", g_overlap, 250), ("singlets", g_singlets, 200), ("event", g_event, 60)]
