"""P21 jet clustering."""
import numpy as np

from . import core, event, gens, kin

RULE = (
    "a case is one particle set clustered by the package and by an independent O(n^3) generalised-kT recombination; "
    "non-trivial when at least one recombination happens; distinct by momenta and settings"
)
ASSUMPTIONS = [
    "cases where two recombination distances tie within 1e-9, or a jet lies within 1e-9 of a cut, are judged only for "
    "the structural properties (disjoint, non-empty, ordered)",
    "particles exactly parallel to the beam are not used",
]
REQUIRED = {"clusterings": 100, "small-units": 10, "large-units": 10, "jets": 400, "merges": 1000, "dropped-by-pt": 20, "dropped-by-eta": 20, "truncated": 12,
            "judged:ca": 15, "judged:kt": 15, "judged:antikt": 15, "judged:gen": 15, "near-named-exponent": 40, "exponent-matters": 40, "exponent-near:0": 5, "exponent-near:1": 4, "exponent-near:-1": 4, "rejected": 20, "across-branch-cut": 5,
            "empty-result": 5, "crowds": 8}


def reference(rows, radius, p):
    """list of (constituents, four-momentum) and the smallest relative gap."""
    parts = [(frozenset([i]), np.array(r, float)) for i, r in enumerate(rows)]
    jets, gap = [], np.inf
    r2 = radius * radius
    merges = wrapped = 0
    while parts:
        k = kin.Kin(np.array([v for _, v in parts]))
        rap, phi = np.asarray(k.rap, float), np.asarray(k.phi, float)
        kt = np.asarray(k.pt, float) ** (2 * p)
        n = len(parts)
        dphi = np.abs(phi[:, None] - phi[None, :])
        wr = dphi > np.pi
        dphi = np.where(wr, 2 * np.pi - dphi, dphi)
        d2 = (rap[:, None] - rap[None, :]) ** 2 + dphi**2
        dij = np.minimum(kt[:, None], kt[None, :]) * d2 / r2
        iu = np.triu_indices(n, 1)
        cand = np.concatenate([kt, dij[iu]])
        order = np.argsort(cand)
        if len(order) > 1:
            # the order in which jets are completed does not matter
            rest = cand[n:] if order[0] < n else cand[order[1:2]]
            if len(rest):
                a, b = cand[order[0]], rest.min()
                gap = min(gap, (b - a) / max(b, 1e-300))
        j = order[0]
        if j < n:
            jets.append(parts.pop(j))
        else:
            i1, i2 = iu[0][j - n], iu[1][j - n]
            wrapped += int(wr[i1, i2])
            new = (parts[i1][0] | parts[i2][0], parts[i1][1] + parts[i2][1])
            parts = [q for t, q in enumerate(parts) if t not in (i1, i2)] + [new]
            merges += 1
    return jets, gap, merges, wrapped


def particles(rng):
    n = int(rng.choice([0, 1, 2, 3, 8, 20, 45, 130], p=[0.04, 0.06, 0.1, 0.1, 0.2, 0.3, 0.16, 0.04]))
    r = rng.random()
    if r < 0.35:
        rows = gens.momenta(rng, n, gens.MOM_KINDS[rng.integers(len(gens.MOM_KINDS))])
        kd = "kind"
    elif r < 0.7:  # sprays, some straddling the azimuth branch cut
        k = int(rng.integers(1, 4))
        phi0 = np.where(rng.random(k) < 0.4, np.pi * rng.choice([-1, 1], k), rng.uniform(-np.pi, np.pi, k))
        eta0 = rng.uniform(-2.5, 2.5, k)
        which = rng.integers(0, k, n)
        eta = eta0[which] + rng.normal(0, 0.3, n)
        phi = phi0[which] + rng.normal(0, 0.3, n)
        pt = 10 ** rng.uniform(-1, 2, n)
        m = rng.choice([0.0, 0.13957], n)
        x, y, z = pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta)
        rows = np.column_stack([x, y, z, np.sqrt(x * x + y * y + z * z + m * m)]).reshape(-1, 4)
        kd = "spray"
    else:
        ev = event.Event(rng)
        rows = np.asarray(ev.pmu)[np.asarray(ev.final)][:45]
        kd = "event"
    with np.errstate(all="ignore"):
        rows = rows[np.hypot(rows[:, 0], rows[:, 1]) > 1e-8] if len(rows) else rows.reshape(-1, 4)
    unit = 1.0
    if rng.random() < 0.3:  # another unit of momentum, exactly
        unit = float(2.0 ** rng.integers(-16, 17))
        rows = rows * unit
    return rows, kd, unit


def structural(mon, masks, rows, top_k):
    import graphicle as gcl

    mon.check(isinstance(masks, list), "clusters are a list", got=type(masks))
    seen = np.zeros(len(rows), int)
    for m in masks:
        mon.check(isinstance(m, gcl.MaskArray) and len(m) == len(rows), "cluster mask over all particles")
        mon.check(np.asarray(m.data).any(), "empty jet")
        seen += np.asarray(m.data).astype(int)
    mon.check(bool((seen <= 1).all()), "jets share particles", seen=seen)
    pts = [float(kin.Kin(rows[np.asarray(m.data)].sum(axis=0)).pt[0]) for m in masks]
    mon.check(all(a >= b * (1 - 1e-9) for a, b in zip(pts, pts[1:])), "jets in descending pt", pts=pts)
    if top_k is not None:
        mon.check(len(masks) <= top_k, "at most top_k jets", got=len(masks), top_k=top_k)
    return pts


def g_cluster(mon, rng, i):
    import graphicle as gcl

    rows, kd, unit = particles(rng)
    mon.obs("small-units", int(unit < 1e-2))
    mon.obs("large-units", int(unit > 1e2))
    radius = float(rng.choice([0.1, 0.2, 0.4, 0.6, 1.0, 1.5, rng.uniform(0.05, 2.0)]))
    if rng.random() < 0.75:
        p = [-1, 0, 1, -1.0, 0.0, 1.0, 0.5, -0.5, 2.0, -2][rng.integers(10)]
    else:  # close to, but not, one of the named algorithms
        p = float(rng.choice([-1, 0, 1]) + rng.choice([-1, 1]) * rng.choice([0.02, 0.05, 0.1, 0.2, 0.3]))
        mon.obs("near-named-exponent")
    name = {-1: "antikt", 0: "ca", 1: "kt"}.get(p, "gen")
    src, how = gens.layout_2d(rng, rows, list("xyze"), "<f8", alt=gens.PMU_ALT)
    pmu = gcl.MomentumArray(src)
    jets, gap, merges, wrapped = reference(rows, radius, p)
    mon.obs("algo:" + name)
    k = kin.Kin(np.array([v for _, v in jets]).reshape(-1, 4))
    pt, eta = np.asarray(k.pt, float), np.asarray(k.eta, float)
    order = np.argsort(-pt)
    kw = {}
    if rng.random() < 0.6:
        kw["pt_cut"] = float(rng.choice([0.0, unit, 10.0 * unit, unit * rng.uniform(0, 50)] + (pt * (1 + 1e-6)).tolist()[:3] + (pt * (1 - 1e-6)).tolist()[:3]))
    if rng.random() < 0.6:
        kw["eta_cut"] = float(rng.choice([0.0, 0.5, 2.5, 4.0] + (np.abs(eta) * (1 + 1e-6)).tolist()[:3] + (np.abs(eta) * (1 - 1e-6)).tolist()[:3]))
    if rng.random() < 0.5:
        kw["top_k"] = int(rng.choice([1, 2, 3, max(1, len(jets)), len(jets) + 5]))
    if rng.random() < 0.2:
        kw = {**dict(pt_cut=None, eta_cut=None, top_k=None), **kw}
    got = mon.call("fastjet_clusters", gcl.select.fastjet_clusters, pmu, radius, p, **kw)
    structural(mon, got, rows, kw.get("top_k"))
    mon.obs("clusterings")
    keep = []
    vague = gap < 1e-9
    for j in order:
        ptc, etc = kw.get("pt_cut"), kw.get("eta_cut")
        if ptc and abs(pt[j] - ptc) < 1e-9 * ptc:
            vague = True
        if etc is not None and abs(abs(eta[j]) - etc) < 1e-8:
            vague = True
        if ptc and pt[j] < ptc:
            mon.obs("dropped-by-pt")
            continue
        if etc is not None and abs(eta[j]) > etc:
            mon.obs("dropped-by-eta")
            continue
        keep.append(j)
    if kw.get("top_k") and len(keep) > kw["top_k"]:
        mon.obs("truncated")
        keep = keep[: kw["top_k"]]
    spt = pt[order]
    if len(spt) > 1 and (np.abs(np.diff(spt)) < 1e-9 * spt[:-1]).any():
        vague = True
    if vague:
        mon.obs("near-ties")
        return
    mon.obs("judged:" + name)
    gotsets = [sorted(np.flatnonzero(np.asarray(m.data)).tolist()) for m in got]
    want = [sorted(jets[j][0]) for j in keep]
    mon.check(gotsets == want, "jets", got=gotsets, want=want, radius=radius, p=p, kw=kw, rows=rows[:3])
    mon.obs("jets", len(want))
    mon.obs("merges", merges)
    mon.obs("across-branch-cut", wrapped)
    mon.obs("empty-result", int(not want))
    if not kw and len(rows):
        mon.check(sum(map(len, gotsets)) == len(rows), "every particle in a jet")
    # writing to one mask must leave the others alone
    if len(got) > 1:
        before = [np.asarray(m.data).copy() for m in got[1:]]
        got[0].data[:] = True
        for b, m in zip(before, got[1:]):
            mon.same(m.data, b, "writing to one jet mask changed another")
    mon.sig(rows, radius, p, sorted(kw.items(), key=str), nontrivial=merges > 0)
    mon.sample(dict(n=len(rows), kind=kd, radius=radius, p=p, kw=kw, jets=[len(w) for w in want]))


def g_exponent(mon, rng, i):
    """sets whose jets differ between an exponent and the named algorithm next to it"""
    import graphicle as gcl

    for _ in range(60):
        base = (0, -1, 1)[i % 3]
        p = base + float(rng.choice([-1, 1]) * rng.choice([0.02, 0.05, 0.1, 0.15, 0.2, 0.3, 0.5]))
        n = int(rng.integers(8, 15)) if base == 0 else int(rng.integers(14, 26))
        pt, eta, phi = 10 ** rng.uniform(-1, 2, n), rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
        rows = np.column_stack([pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta), pt * np.cosh(eta) + 1e-3])
        radius = float(rng.choice([0.4, 0.6, 0.8]))
        jets, gap, _, _ = reference(rows, radius, p)
        other, _, _, _ = reference(rows, radius, base)
        if gap < 1e-9 or {j[0] for j in jets} == {j[0] for j in other}:
            continue
        got = mon.call("fastjet_clusters", gcl.select.fastjet_clusters, gcl.MomentumArray(rows), radius, p)
        structural(mon, got, rows, None)
        mon.check({frozenset(np.flatnonzero(np.asarray(m.data)).tolist()) for m in got} == {j[0] for j in jets}, "jets near a named exponent", p=p, radius=radius, n=n)
        mon.obs("exponent-matters")
        mon.obs(f"exponent-near:{base}")
        mon.sig(rows, radius, p)
        return


def g_many(mon, rng, i):
    """Hundreds of jets, all known: tight knots further apart than the radius."""
    import graphicle as gcl

    na, nb = int(rng.integers(8, 24)), int(rng.integers(5, 16))
    phi, eta = np.meshgrid(2 * np.pi * np.arange(na) / na - np.pi, np.linspace(-3, 3, nb))
    phi, eta = phi.ravel(), eta.ravel()
    n = len(phi)
    pt = 10 ** rng.uniform(0, 2, n)
    gap = min(2 * np.pi / na, 6 / (nb - 1))
    size = rng.integers(1, 4, n)
    who = np.repeat(np.arange(n), size)
    pph, pet = phi[who] + rng.uniform(-0.01, 0.01, len(who)) * gap, eta[who] + rng.uniform(-0.01, 0.01, len(who)) * gap
    ppt = pt[who] * rng.uniform(0.1, 1, len(who))
    rows = np.column_stack([ppt * np.cos(pph), ppt * np.sin(pph), ppt * np.sinh(pet), ppt * np.cosh(pet)])
    perm = rng.permutation(len(rows))
    rows, who = rows[perm], who[perm]
    p = [-1, 0, 1, 0.5][i % 4]
    kw = {}
    if rng.random() < 0.5:
        kw["top_k"] = int(rng.integers(1, n + 20))
    got = mon.call("fastjet_clusters", gcl.select.fastjet_clusters, gcl.MomentumArray(rows), 0.5 * gap, p, **kw)
    structural(mon, got, rows, kw.get("top_k"))
    tot = np.array([np.hypot(*rows[who == j, :2].sum(0)) for j in range(n)])
    want = [frozenset(np.flatnonzero(who == j).tolist()) for j in np.argsort(-tot)][: kw.get("top_k")]
    mon.check([frozenset(np.flatnonzero(np.asarray(m.data)).tolist()) for m in got] == want, "jets among many", n=n, got=len(got), want=len(want), p=p, kw=kw)
    mon.obs("jets", len(want))
    mon.obs("crowds", int(len(want) > 64))
    mon.sig(rows, p, kw)
    mon.sample(dict(particles=len(rows), jets=n, p=p, kw=kw))


def g_reject(mon, rng, i):
    import graphicle as gcl

    rows = gens.momenta(rng, int(rng.integers(1, 12)), "collider")
    pmu = gcl.MomentumArray(rows)
    f = gcl.select.fastjet_clusters
    r = lambda **kw: (mon.raises("fastjet_clusters", f, pmu, types=(ValueError,), **kw), mon.obs("rejected"))
    r(radius=-float(rng.uniform(1e-9, 2)), p_val=-1)
    r(radius=0.4, p_val=0, pt_cut=-float(rng.uniform(1e-9, 9)))
    r(radius=0.4, p_val=1, eta_cut=-float(rng.uniform(1e-9, 9)))
    r(radius=0.4, p_val=1, top_k=int(rng.integers(-3, 1)))
    r(radius=0.4, p_val=1, top_k=float(rng.integers(1, 5)))
    r(radius=0.4, p_val=1, top_k=2.5)
    mon.sig(rows)


GROUPS = [("cluster", g_cluster, 260), ("exponent", g_exponent, 60), ("many", g_many, 20), ("reject", g_reject, 8)]
